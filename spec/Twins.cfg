CONSTANTS
  Prelude <- TwPrelude
  Menu <- TwMenu
  Watch <- TwWatch
  Depth <- TwDepth
INIT ExploreInit
NEXT ExploreNext
ACTION_CONSTRAINT Emit
INVARIANTS QuestionsChangeNothing TwTheorems
CHECK_DEADLOCK FALSE

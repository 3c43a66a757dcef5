CONSTANTS
  Prelude <- OffPrelude
  Menu <- OffMenu
  Watch <- OffWatch
  Depth <- OffDepth
INIT ExploreInit
NEXT ExploreNext
ACTION_CONSTRAINT Emit
INVARIANTS QuestionsChangeNothing OffTheorems
CHECK_DEADLOCK FALSE

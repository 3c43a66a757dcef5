CONSTANTS
  Prelude <- FaPrelude
  Menu <- FaMenu
  Watch <- FaWatch
  Depth <- FaDepth
INIT ExploreInit
NEXT ExploreNext
ACTION_CONSTRAINT Emit
INVARIANTS QuestionsChangeNothing FaTheorems
CHECK_DEADLOCK FALSE

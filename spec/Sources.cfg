CONSTANTS
  Prelude <- SrcPrelude
  Menu <- SrcMenu
  Watch <- SrcWatch
  Depth <- SrcDepth
INIT ExploreInit
NEXT ExploreNext
ACTION_CONSTRAINT Emit
INVARIANTS QuestionsChangeNothing SrcTheorems
CHECK_DEADLOCK FALSE

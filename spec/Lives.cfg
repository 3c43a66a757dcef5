CONSTANTS
  Prelude <- LifePrelude
  Menu <- LifeMenu
  Watch <- LifeWatch
  Depth <- LifeDepth
INIT ExploreInit
NEXT ExploreNext
ACTION_CONSTRAINT Emit
INVARIANTS QuestionsChangeNothing LifeTheorems
CHECK_DEADLOCK FALSE

CONSTANTS
  Prelude <- WholePrelude
  Menu <- WholeMenu
  Watch <- WholeWatch
  Depth <- WholeDepth
INIT ExploreInit
NEXT ExploreNext
ACTION_CONSTRAINT Emit
INVARIANTS QuestionsChangeNothing
PROPERTY Frame
CHECK_DEADLOCK FALSE

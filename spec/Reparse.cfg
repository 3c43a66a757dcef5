CONSTANTS
  Prelude <- RepPrelude
  Menu <- RepMenu
  Watch <- RepWatch
  Depth <- RepDepth
INIT ExploreInit
NEXT ExploreNext
ACTION_CONSTRAINT Emit
INVARIANTS QuestionsChangeNothing RepTheorems MissingTheorem
CHECK_DEADLOCK FALSE

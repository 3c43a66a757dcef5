CONSTANTS
  Prelude <- HomPrelude
  Menu <- HomMenu
  Watch <- HomWatch
  Depth <- HomDepth
INIT ExploreInit
NEXT ExploreNext
ACTION_CONSTRAINT Emit
INVARIANTS QuestionsChangeNothing HomTheorems OrderTheorem
PROPERTY Monotone
CHECK_DEADLOCK FALSE

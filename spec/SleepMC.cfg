SPECIFICATION Spec
CONSTANTS Bodies = 4 Heavy = 1 MaxHits = 3
INVARIANTS Mutual SomeSleep Remembered Timing Forgotten
PROPERTIES Wakes AtRest
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Scene = "stack" Depth = 6 Budget = 1 Emit = FALSE
INVARIANTS Apart OffPlanes OffTable Mutual SomeSleep FiniteW Timing Limited
PROPERTIES NoMore SameEnergy SameMomentum Wakes StayPut OnlySteps
CHECK_DEADLOCK FALSE

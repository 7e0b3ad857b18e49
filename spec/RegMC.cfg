SPECIFICATION Spec
VIEW View
CONSTANTS MaxE = 2 MaxC = 2 MaxG = 1 Lean = FALSE Emit = FALSE
INVARIANTS Owned OneOwner Parts
PROPERTIES Placed Gone Refused Local
CHECK_DEADLOCK FALSE

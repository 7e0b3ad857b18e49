SPECIFICATION Spec
CONSTANT File = "trace.ndjson"
INVARIANTS OwnershipInv NeighborsInv
CHECK_DEADLOCK FALSE

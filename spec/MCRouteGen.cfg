SPECIFICATION Spec
INVARIANT Dump
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS NotStuck Ends
CHECK_DEADLOCK FALSE

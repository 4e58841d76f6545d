SPECIFICATION Spec
INVARIANT OneOutstanding
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT MaxList = 2
INVARIANTS RoundTrip IsBytes NoTruncation Surplus
CHECK_DEADLOCK FALSE

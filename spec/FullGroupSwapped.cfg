SPECIFICATION Spec
INVARIANT Law
CONSTANT Which = {"swapped"}
CHECK_DEADLOCK FALSE

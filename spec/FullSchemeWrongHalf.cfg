SPECIFICATION Spec
INVARIANT Law
CONSTANT Which = {"wrongHalf"}
CHECK_DEADLOCK FALSE

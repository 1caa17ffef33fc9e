SPECIFICATION Spec
INVARIANT Law
CONSTANT Which = {"unpatched"}
CHECK_DEADLOCK FALSE

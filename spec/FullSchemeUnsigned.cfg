SPECIFICATION Spec
INVARIANT Law
CONSTANT Which = {"unsigned"}
CHECK_DEADLOCK FALSE

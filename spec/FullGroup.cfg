SPECIFICATION Spec
INVARIANT Law
CONSTANT Which = {"double", "var", "mixed", "zinv", "complete", "degenerate", "negate", "rescale", "isomorphic", "table", "globalz"}
CHECK_DEADLOCK FALSE

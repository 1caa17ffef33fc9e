SPECIFICATION Spec
INVARIANTS Conforms Complete Lattice
CHECK_DEADLOCK FALSE

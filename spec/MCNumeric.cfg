SPECIFICATION Spec
INVARIANTS Ints Order Vecs Wraps
CHECK_DEADLOCK FALSE

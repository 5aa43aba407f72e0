SPECIFICATION Spec
CONSTANT MaxFlux = 2
INVARIANTS Older Swept Whole Parts Accepted
CHECK_DEADLOCK FALSE

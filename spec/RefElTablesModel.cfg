SPECIFICATION Spec
INVARIANTS Transitive CounterClockwise Distinct Euler
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT Size = 3
INVARIANTS Extends Monotonic AllReached Emit
CHECK_DEADLOCK FALSE

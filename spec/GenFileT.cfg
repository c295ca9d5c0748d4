SPECIFICATION Spec
CONSTANT Size = 4
INVARIANTS Extends Monotonic AllReached Emit
CHECK_DEADLOCK FALSE

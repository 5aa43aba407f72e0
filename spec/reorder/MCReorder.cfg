SPECIFICATION MSpec
CONSTANT N = 4
INVARIANTS Correct PrefixClosed StacksFit
CHECK_DEADLOCK FALSE

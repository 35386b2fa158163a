SPECIFICATION MCTextSpec
INVARIANTS Undisturbed Ended NothingLost Tree Whole2
CHECK_DEADLOCK FALSE

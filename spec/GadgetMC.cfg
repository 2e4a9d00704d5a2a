SPECIFICATION Spec
CONSTANTS MaxW = 8
INVARIANTS Bounded Recomposes OffsetForm
PROPERTIES Terminates
CHECK_DEADLOCK FALSE

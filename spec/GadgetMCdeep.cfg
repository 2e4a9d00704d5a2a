SPECIFICATION Spec
CONSTANTS MaxW = 11
INVARIANTS Bounded Recomposes OffsetForm
PROPERTIES Terminates
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS RoundTrip SizeRight Canonical ExactLength
CHECK_DEADLOCK FALSE

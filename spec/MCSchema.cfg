SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS Decided Sure Faithful RoundTrip MustMay Apart Injective
CHECK_DEADLOCK FALSE

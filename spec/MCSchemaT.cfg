SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS Decided Sure Faithful RoundTrip MustMay Apart Injective
CHECK_DEADLOCK FALSE

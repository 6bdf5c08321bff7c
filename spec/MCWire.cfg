SPECIFICATION Spec
INVARIANTS RoundTrip Prefixes Versioned Lengths
CHECK_DEADLOCK FALSE

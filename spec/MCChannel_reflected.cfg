SPECIFICATION Spec
CONSTANTS Pairs = 2 MaxData = 1 Failures = FALSE Clients = {"A", "D"} Excused = {"replayed_server", "both_directions", "two_handshakes"}
INVARIANTS Sequence Exclusive Accepted Authentic Secret FreshKeys Nonces
CHECK_DEADLOCK FALSE

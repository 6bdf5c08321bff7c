SPECIFICATION GenSpec
CONSTANTS Pairs = 3 MaxData = 3 Failures = TRUE Clients = {"A", "D"} Excused = {"reflected", "replayed_server", "both_directions", "two_handshakes"} MaxScript = 24
CHECK_DEADLOCK FALSE

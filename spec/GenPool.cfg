SPECIFICATION GenSpec
CONSTANTS Links = {1, 2} Shared = TRUE MaxOps = 3 MaxFrames = 6 MaxTime = 4 MaxFaults = 1 Tmo = 2 Names = {"a", "error", "x"} KindSet = {"req", "stream"} MaxScript = 12
CHECK_DEADLOCK FALSE

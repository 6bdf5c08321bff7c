SPECIFICATION GenSpec
CONSTANTS Links = {1, 2} Shared = FALSE MaxOps = 3 MaxFrames = 6 MaxTime = 4 MaxFaults = 2 Tmo = 2 Names = {"a", "error", "x"} KindSet = {"emit", "req"} MaxScript = 13
CHECK_DEADLOCK FALSE

SPECIFICATION GenSpec
CONSTANTS Links = {1} Shared = TRUE MaxOps = 3 MaxFrames = 6 MaxTime = 4 MaxFaults = 2 Tmo = 2 Names = {"a", "error", "x"} KindSet = {"emit", "req", "stream"} MaxScript = 12
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANTS Links = {1, 2} Shared = FALSE MaxOps = 4 MaxFrames = 8 MaxTime = 6 MaxFaults = 4 Tmo = 2 Names = {"a", "error", "x"} KindSet = {"emit", "req", "stream"}
INVARIANTS Satisfiable Mine InOrder Ended Once Finals AllFinals Timely Unclaimed Ids
PROPERTY DeadIsDead
CHECK_DEADLOCK FALSE

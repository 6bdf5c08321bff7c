SPECIFICATION MCSpec
CONSTANTS Links = {1, 2} Shared = TRUE MaxOps = 1 MaxFrames = 2 MaxTime = 1 MaxFaults = 0 Tmo = 1 Names = {"x"} KindSet = {"req", "stream"}
INVARIANTS Satisfiable Mine InOrder Ended Once Finals AllFinals Timely Unclaimed Ids
PROPERTY DeadIsDead
CHECK_DEADLOCK FALSE

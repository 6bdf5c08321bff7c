SPECIFICATION MCSpec
CONSTANTS Links = {1} Shared = TRUE MaxOps = 1 MaxFrames = 2 MaxTime = 2 MaxFaults = 1 Tmo = 1 Names = {"a", "error", "x"} KindSet = {"req"}
INVARIANTS Satisfiable Mine InOrder Ended Once Finals AllFinals Timely Unclaimed Ids
PROPERTY DeadIsDead
CHECK_DEADLOCK FALSE

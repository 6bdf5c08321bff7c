SPECIFICATION MCSpec
CONSTANTS Conns = {1, 2} Threads = {1, 2} MaxOps = 4
INVARIANTS Exact Allowed Counters NoWrap
PROPERTY Least
CHECK_DEADLOCK FALSE

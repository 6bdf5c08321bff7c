SPECIFICATION MCSpec
CONSTANTS Conns = {1, 2, 3} Threads = {1, 2, 3} MaxOps = 14
INVARIANTS Exact Allowed Counters NoWrap
PROPERTY Least
CHECK_DEADLOCK FALSE

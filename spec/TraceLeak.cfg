SPECIFICATION TraceSpec
CONSTRAINT Progress
POSTCONDITION Report
CHECK_DEADLOCK FALSE
CONSTANT Slack = 32768

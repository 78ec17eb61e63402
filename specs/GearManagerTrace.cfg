SPECIFICATION TSpec
INVARIANT Report
POSTCONDITION Post
CHECK_DEADLOCK FALSE

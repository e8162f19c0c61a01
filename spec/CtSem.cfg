SPECIFICATION Spec
INVARIANT Conforms
INVARIANT Stat
CHECK_DEADLOCK FALSE

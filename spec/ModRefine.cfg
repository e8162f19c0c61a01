SPECIFICATION MSpec
INVARIANT Conforms
INVARIANT MStat
CHECK_DEADLOCK FALSE

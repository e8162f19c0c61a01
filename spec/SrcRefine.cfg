SPECIFICATION SSpec
INVARIANT Conforms
INVARIANT SStat
CHECK_DEADLOCK FALSE

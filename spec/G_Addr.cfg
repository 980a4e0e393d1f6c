INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
INVARIANT Emitted

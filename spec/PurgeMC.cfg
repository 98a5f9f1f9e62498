SPECIFICATION Spec
CONSTANTS MaxErr = 2 MaxTouch = 2
CHECK_DEADLOCK FALSE
INVARIANT NoLinks
PROPERTIES Safe Links Eventually

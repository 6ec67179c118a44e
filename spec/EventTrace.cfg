INIT TraceInit
NEXT TraceNext
CONSTANTS Receivers = {"a"}
CHECK_DEADLOCK FALSE

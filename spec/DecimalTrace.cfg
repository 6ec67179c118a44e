INIT TraceInit
NEXT TraceNext
CONSTANTS Regs = {1, 2, 3, 4}
CHECK_DEADLOCK FALSE

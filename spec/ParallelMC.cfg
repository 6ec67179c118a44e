SPECIFICATION Spec
CONSTANTS
  MaxItems = 4
INVARIANTS ScheduleIndependent Partitioned Balanced Emit
CHECK_DEADLOCK FALSE

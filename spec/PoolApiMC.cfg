CONSTANTS Thread = {0, 1}
 Slot = {0, 1, 2}
 Value = {0, 1}
 Object = {1, 2}
SPECIFICATION Spec
INVARIANT OneObjectPerValue
CHECK_DEADLOCK FALSE

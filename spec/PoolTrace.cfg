CONSTANTS Thread = {0, 1, 2, 3}
 Slot = {0, 1, 2, 3, 4, 5, 6, 7}
 Value = {0, 1, 2, 3, 4, 5}
 Object = {1, 2, 3, 4, 5, 6}
SPECIFICATION TSpec
INVARIANTS OneObjectPerValue NoReject
CHECK_DEADLOCK FALSE

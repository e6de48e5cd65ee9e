SPECIFICATION PSpec
CONSTANT Slots <- TraceSlots
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

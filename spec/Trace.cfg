SPECIFICATION TraceSpec
CONSTANT Slots <- TraceSlots
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

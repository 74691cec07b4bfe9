SPECIFICATION Spec
CONSTANT MaxLen = 8
CONSTANT MaxTensors = 3
CONSTANT MaxRegs = 4
CONSTANT Ops = {"add_fw", "neg_fw"}
CONSTANT Test = "device"
CONSTANT Keep = "last"
VIEW View
INVARIANT Latest Separate Exclusive
PROPERTY Rejected
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE

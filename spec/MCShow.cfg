SPECIFICATION Spec
CONSTANT Sample <- EnvSample
INVARIANTS Right Printed
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT Procs = {1, 2, 3, 4, 5, 6, 7, 8}
CONSTRAINT Report
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTRAINT Report_
CHECK_DEADLOCK FALSE

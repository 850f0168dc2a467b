SPECIFICATION Spec
CONSTANTS
  HeadLen = 12
  MaxLen = 5120
  LenOf <- TLen
  React <- TReact
CONSTRAINT Report
CHECK_DEADLOCK FALSE

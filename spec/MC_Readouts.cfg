SPECIFICATION Spec
CONSTANTS
  Steps = 3
  Letters = 6
  Bytes3 = {0, 9, 10, 255}
INVARIANTS InByte Apart PeriodGood AddressReads
VIEW view
CHECK_DEADLOCK FALSE

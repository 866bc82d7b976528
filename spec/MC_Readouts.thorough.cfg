SPECIFICATION Spec
CONSTANTS
  Steps = 4
  Letters = 9
  Bytes3 = {0, 1, 9, 10, 99, 100, 255}
INVARIANTS InByte Apart PeriodGood AddressReads
VIEW view
CHECK_DEADLOCK FALSE

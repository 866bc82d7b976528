SPECIFICATION Spec
CONSTANTS
  Steps = 12
  Letters = {48, 49, 50, 54, 57, 58, 46, 45, 97, 101, 95}
  Kinds = {"scaled", "unsigned", "long", "dt", "text", "octets", "t", "d", "ln", "float", "bits", "enum"}
CONSTRAINT Emit
CHECK_DEADLOCK FALSE

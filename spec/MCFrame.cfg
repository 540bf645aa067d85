SPECIFICATION Spec
CONSTANTS
  Datas <- DatasQuick
  Types0 = {134, 135, 132}
  Svcs = {108}
  Values <- AllValues
INVARIANTS Symmetric OtherKind Detected
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Datas <- DatasDeep
  Types0 = {132, 133, 134, 135}
  Svcs = {100, 108, 113}
  Values <- AllValues
INVARIANTS Symmetric OtherKind Detected
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
VIEW View
INVARIANTS Inv Framed ErrFinal
INVARIANT Report
CHECK_DEADLOCK FALSE
CONSTANTS
  STATUS_MESSAGE_MAX = 3
  METHOD_MAX = 2
  RESOURCE_MAX = 3
  QUERY_STRING_MAX = 3
  HEADER_NAME_MAX = 20
  HEADER_VALUE_MAX = 8
  MaxTokens = 14
  Request = TRUE
  HeadReply = FALSE
  Pay = FALSE
  Max = 3

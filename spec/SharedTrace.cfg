SPECIFICATION Spec
CONSTANTS
 STATUS_MESSAGE_MAX = 1024
 METHOD_MAX = 1024
 RESOURCE_MAX = 262144
 QUERY_STRING_MAX = 1048576
 HEADER_NAME_MAX = 1024
 HEADER_VALUE_MAX = 1048576
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Clients <- AllIds
 Raw <- RawIds
 Multi <- MultiIds
CHECK_DEADLOCK FALSE

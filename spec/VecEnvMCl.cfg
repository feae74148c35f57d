SPECIFICATION Spec
CONSTANTS
 N = 2
 Calls = 2
PROPERTIES AllEnd

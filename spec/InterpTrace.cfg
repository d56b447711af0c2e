SPECIFICATION Spec
CONSTANTS U = 4

SPECIFICATION Spec
CONSTANTS L = 27720

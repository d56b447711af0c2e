SPECIFICATION Spec
CONSTANTS K = 16

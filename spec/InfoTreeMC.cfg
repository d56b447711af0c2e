SPECIFICATION Spec
CONSTANTS N = 3
 K = {"k"}
 V = {1, 2}
VIEW View
INVARIANT Nearest OwnFirst OnceEach
PROPERTY UpdateSeen
ACTION_CONSTRAINT Emit

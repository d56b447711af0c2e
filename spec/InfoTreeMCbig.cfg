SPECIFICATION Spec
CONSTANTS N = 4
 K = {"k"}
 V = {1, 2}
VIEW View
INVARIANT Nearest OwnFirst OnceEach
PROPERTY UpdateSeen


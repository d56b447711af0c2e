SPECIFICATION Spec
CONSTANTS MaxF = 2
 MaxV = 2
 MaxH = 2
 MaxT = 3
 Cp = FALSE
 Tr = TRUE
 Lazy = TRUE
VIEW View
PROPERTY LookIsPure Stays Clears Forgets ReadsOnce Assigns Writes
ACTION_CONSTRAINT Emit

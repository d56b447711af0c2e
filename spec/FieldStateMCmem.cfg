SPECIFICATION Spec
CONSTANTS MaxF = 2
 MaxV = 1
 MaxH = 2
 MaxT = 3
 Cp = FALSE
 Tr = FALSE
 Lazy = FALSE
VIEW View
PROPERTY LookIsPure Stays Clears Forgets ReadsOnce Assigns Writes
ACTION_CONSTRAINT Emit

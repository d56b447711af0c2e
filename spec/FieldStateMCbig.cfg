SPECIFICATION Spec
CONSTANTS MaxF = 2
 MaxV = 2
 MaxH = 3
 MaxT = 4
 Cp = FALSE
 Tr = TRUE
 Lazy = TRUE
VIEW View
PROPERTY LookIsPure Stays Clears Forgets ReadsOnce Assigns Writes

SPECIFICATION Spec
CONSTANTS MaxKids = 4
 TV = {0, 4, 12}
VIEW View
INVARIANT InOrder StableOrder ActiveIsKid SlicesInclusive NearestIs
PROPERTY AddKeepsOthers
ACTION_CONSTRAINT Emit

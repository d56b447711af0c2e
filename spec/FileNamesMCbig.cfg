SPECIFICATION Spec
CONSTANTS
 MaxLen = 4
 Vals = {0, 100, 200, 300, 900, 1200}
INVARIANTS GlobLaws NumLaws SliceLaws OpenLaws
CHECK_DEADLOCK FALSE

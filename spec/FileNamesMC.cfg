SPECIFICATION Spec
CONSTANTS
 MaxLen = 2
 Vals = {0, 100, 200, 1200}
INVARIANTS GlobLaws NumLaws SliceLaws OpenLaws
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
NP = 3
NM = 1
Radii = {1200, 2000, 3000, 6000}
INVARIANTS Even Odd Linear Pole Equator Scale Side Meridian Radius Shell Tangent Back Shells Stagger
CHECK_DEADLOCK FALSE

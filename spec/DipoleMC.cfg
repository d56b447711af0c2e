SPECIFICATION Spec
CONSTANTS
NP = 2
NM = 1
Radii = {1500, 2500, 4000}
INVARIANTS Even Odd Linear Pole Equator Scale Side Meridian Radius Shell Tangent Back Shells Stagger
CHECK_DEADLOCK FALSE

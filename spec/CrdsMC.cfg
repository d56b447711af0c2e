SPECIFICATION Spec
CONSTANTS MaxN = 5
 Gaps = {1, 2, 3}
INVARIANT Ascending MirrorTwice MirrorCells CellsBetween EvenCells AroundHolds FaceEdge ExtendHolds PointsHold

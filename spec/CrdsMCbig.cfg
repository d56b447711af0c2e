SPECIFICATION Spec
CONSTANTS MaxN = 7
 Gaps = {1, 2, 3, 6}
INVARIANT Ascending MirrorTwice MirrorCells CellsBetween EvenCells AroundHolds FaceEdge ExtendHolds PointsHold

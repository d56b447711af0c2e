---------------------------- MODULE Rot ----------------------------
(* Rotations of space.  A rotation is a 3x3 matrix in units of 1/S that acts on
   columns; angles are in thousandths of a degree, right handed.  Everything else
   - Euler angles in either order, quaternions, axis and angle, the turn that takes
   one vector to another - is a way to write such a matrix down. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
S == 10000
Abs(x) == IF x < 0 THEN -x ELSE x
(* nearest integer to x/d *)
RDiv(x, d) == LET a == Abs(x)  D == Abs(d)
                  q == (a \div D) + (IF 2 * (a % D) >= D THEN 1 ELSE 0)
              IN  IF (x < 0) = (d < 0) THEN q ELSE -q
SinTable == <<0, 175, 349, 523, 698, 872, 1045, 1219, 1392, 1564, 1736, 1908, 2079, 2250, 2419, 2588, 2756, 2924, 3090, 3256, 3420, 3584, 3746, 3907, 4067, 4226, 4384, 4540, 4695, 4848, 5000, 5150, 5299, 5446, 5592, 5736, 5878, 6018, 6157, 6293, 6428, 6561, 6691, 6820, 6947, 7071, 7193, 7314, 7431, 7547, 7660, 7771, 7880, 7986, 8090, 8192, 8290, 8387, 8480, 8572, 8660, 8746, 8829, 8910, 8988, 9063, 9135, 9205, 9272, 9336, 9397, 9455, 9511, 9563, 9613, 9659, 9703, 9744, 9781, 9816, 9848, 9877, 9903, 9925, 9945, 9962, 9976, 9986, 9994, 9998, 10000>>
SinQ(m) == LET k == m \div 1000  r == m % 1000
           IN  IF r = 0 THEN SinTable[k + 1]
               ELSE SinTable[k + 1] + RDiv((SinTable[k + 2] - SinTable[k + 1]) * r, 1000)
Sin(a) == LET m == a % 360000
          IN  IF m <= 90000 THEN SinQ(m) ELSE IF m <= 180000 THEN SinQ(180000 - m)
              ELSE IF m <= 270000 THEN -SinQ(m - 180000) ELSE -SinQ(360000 - m)
Cos(a) == Sin(a + 90000)
-----------------------------------------------------------------------------
I3 == <<1, 2, 3>>
Mat(f(_, _)) == TLCEval([i \in 1..3 |-> [j \in 1..3 |-> f(i, j)]])
Id3 == Mat(LAMBDA i, j : IF i = j THEN S ELSE 0)
Tr(A0) == LET A == TLCEval(A0) IN Mat(LAMBDA i, j : A[j][i])
Mul(A0, B0) == LET A == TLCEval(A0)  B == TLCEval(B0) IN Mat(LAMBDA i, j : RDiv(A[i][1] * B[1][j] + A[i][2] * B[2][j] + A[i][3] * B[3][j], S))
RECURSIVE MulAll(_, _)
MulAll(Ms, k) == IF k > Len(Ms) THEN Id3 ELSE IF k = Len(Ms) THEN Ms[k] ELSE Mul(Ms[k], MulAll(Ms, k + 1))
(* what A makes of v, in units of 1/S of those of v *)
Act(A0, v) == LET A == TLCEval(A0) IN [i \in 1..3 |-> A[i][1] * v[1] + A[i][2] * v[2] + A[i][3] * v[3]]
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Eps(i, j, k) == IF <<i, j, k>> \in {<<1, 2, 3>>, <<2, 3, 1>>, <<3, 1, 2>>} THEN 1
                ELSE IF <<i, j, k>> \in {<<3, 2, 1>>, <<2, 1, 3>>, <<1, 3, 2>>} THEN -1 ELSE 0
(* the matrix of v x *)
CrossM(v) == Mat(LAMBDA i, j : -(Eps(i, j, 1) * v[1] + Eps(i, j, 2) * v[2] + Eps(i, j, 3) * v[3]))
CloseM(A0, B0, tol) == LET A == TLCEval(A0)  B == TLCEval(B0) IN \A i \in 1..3 : \A j \in 1..3 : Abs(A[i][j] - B[i][j]) <= tol
Col(A, j) == <<A[1][j], A[2][j], A[3][j]>>
Det(A) == RDiv(Dot(Col(A, 1), [i \in 1..3 |-> RDiv(Cross(Col(A, 2), Col(A, 3))[i], S)]), S)
IsRot(A, tol) == CloseM(Mul(A, Tr(A)), Id3, tol) /\ Abs(Det(A) - S) <= tol
-----------------------------------------------------------------------------
(* by a, about axis x (1), y (2) or z (3) *)
Elem(ax, a) == Mat(LAMBDA i, j : IF i = ax \/ j = ax THEN (IF i = j THEN S ELSE 0)
                                 ELSE IF i = j THEN Cos(a) ELSE -(Eps(i, j, ax) * Sin(a)))
(* first about ax[1], then ax[2], then ax[3] *)
OfAngles(ax, a) == Mul(Elem(ax[3], a[3]), Mul(Elem(ax[2], a[2]), Elem(ax[1], a[1])))
(* the product in the order written *)
OfEul(ax, a) == Mul(Elem(ax[1], a[1]), Mul(Elem(ax[2], a[2]), Elem(ax[3], a[3])))
(* of a quaternion <<w, x, y, z>> of any length *)
Norm2(q) == q[1] * q[1] + q[2] * q[2] + q[3] * q[3] + q[4] * q[4]
OfQuat(q) ==
    LET n == Norm2(q)  w == q[1]  x == q[2]  y == q[3]  z == q[4]
        e == << <<n - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)>>,
                <<2 * (x * y + z * w), n - 2 * (x * x + z * z), 2 * (y * z - x * w)>>,
                <<2 * (x * z - y * w), 2 * (y * z + x * w), n - 2 * (x * x + y * y)>> >>
    IN  Mat(LAMBDA i, j : RDiv(S * e[i][j], n))
(* of a quaternion of length one in units of 1/S *)
OfUQuat(q) ==
    LET P(a, b) == RDiv(q[a] * q[b], S)  w == 1  x == 2  y == 3  z == 4
    IN  << <<S - 2 * (P(y, y) + P(z, z)), 2 * (P(x, y) - P(z, w)), 2 * (P(x, z) + P(y, w))>>,
           <<2 * (P(x, y) + P(z, w)), S - 2 * (P(x, x) + P(z, z)), 2 * (P(y, z) - P(x, w))>>,
           <<2 * (P(x, z) - P(y, w)), 2 * (P(y, z) + P(x, w)), S - 2 * (P(x, x) + P(y, y))>> >>
QMul(p, q) == <<p[1] * q[1] - p[2] * q[2] - p[3] * q[3] - p[4] * q[4],
                p[1] * q[2] + p[2] * q[1] + p[3] * q[4] - p[4] * q[3],
                p[1] * q[3] - p[2] * q[4] + p[3] * q[1] + p[4] * q[2],
                p[1] * q[4] + p[2] * q[3] - p[3] * q[2] + p[4] * q[1]>>
RECURSIVE QMulAll(_, _)
QMulAll(Qs, k) == IF k > Len(Qs) THEN <<1, 0, 0, 0>> ELSE IF k = Len(Qs) THEN Qs[k] ELSE QMul(Qs[k], QMulAll(Qs, k + 1))
(* by a about u, whose length is n *)
OfAxis(u, n, a) ==
    LET c == Cos(a)  K == CrossM(u)
    IN  Mat(LAMBDA i, j : (IF i = j THEN c ELSE 0) + RDiv(Sin(a) * K[i][j], n) + RDiv((S - c) * u[i] * u[j], n * n))
(* by a about a unit vector u in units of 1/S *)
OfUnit(u, a) ==
    LET c == Cos(a)  K == CrossM(u)
    IN  Mat(LAMBDA i, j : (IF i = j THEN c ELSE 0) + RDiv(Sin(a) * K[i][j], S) + RDiv((S - c) * RDiv(u[i] * u[j], S), S))
(* the least turn that takes the direction of a to that of b; their lengths are m and n *)
Opposed(a, m, b, n) == Dot(a, b) = -(m * n)
Taking(a, m, b, n) ==
    LET v == Cross(a, b)  K == CrossM(v)  d == Dot(a, b)  mn == m * n
    IN  Mat(LAMBDA i, j : (IF i = j THEN RDiv(S * d, mn) ELSE 0) + RDiv(S * K[i][j], mn) + RDiv(S * v[i] * v[j], mn * (mn + d)))
Unit(v, n) == [i \in 1..3 |-> RDiv(S * v[i], n)]
CloseV(a, b, tol) == \A i \in 1..3 : Abs(a[i] - b[i]) <= tol
Scaled(v) == [i \in 1..3 |-> RDiv(v[i], S)]
=============================================================================

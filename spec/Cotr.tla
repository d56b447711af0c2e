------------------------------- MODULE Cotr -------------------------------
(* Geocentric coordinate systems at one moment in time.  Every system hangs from
   another one by a rotation of its axes (Hapgood 1992):

       gei --> geo --> mag
       gei --> gse --> gsm --> sm
               gse --> mhd

   so that what takes a vector from a to b is the way from a up to gei and down to b.
   Angles are in thousandths of a degree, matrices in units of 1/S (module Rot). *)
EXTENDS Rot
Systems == {"gei", "geo", "gse", "gsm", "sm", "mag", "mhd"}
Helio == {"hae", "hee", "heeq"}
(* the paper turns right handed about y, but left handed about x and z *)
Hap(ax, a) == Elem(ax, IF ax = 2 THEN a ELSE -a)
-----------------------------------------------------------------------------
(* integer square root *)
RECURSIVE Newton(_, _)
Newton(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Newton(n, y)
Isqrt(n) == IF n <= 0 THEN 0 ELSE IF n < 4 THEN 1 ELSE Newton(n, IF n > 40000 * 40000 THEN 46340 ELSE (n \div 2) + 1)
(* time: h half days since 2000-01-01 12:00 minus twelve hours (the start of the day), s seconds into the day *)
Theta(h, s) == (100461 + 492 * h + RDiv(6017 * h, 7305) + RDiv(15041 * s, 3600) + RDiv(7 * s, 360000)) % 360000
SunMean(h, s) == (280460 + 492 * h + RDiv(30086 * h, 36525) + RDiv(4107 * s, 360000)) % 360000
SunAnomaly(h, s) == (357528 + 492 * h + RDiv(1169 * h, 1461) + RDiv(4107 * s, 360000)) % 360000
SunLon(h, s) == LET m == SunAnomaly(h, s)
                IN  (SunMean(h, s) + RDiv((19150 - RDiv(48 * h, 73050)) * Sin(m), S * 10) + RDiv(20 * Sin(2 * m), S)) % 360000
Obliquity(h) == 23439 - RDiv(13 * h, 73050)
-----------------------------------------------------------------------------
(* first order coefficients of the field, nT: year, g10, g11, h11 *)
Igrf == << <<1950, -30554, -2250, 5815>>, <<1955, -30500, -2215, 5820>>, <<1960, -30421, -2169, 5791>>,
           <<1965, -30334, -2119, 5776>>, <<1970, -30220, -2068, 5737>>, <<1975, -30100, -2013, 5675>>,
           <<1980, -29992, -1956, 5604>>, <<1985, -29873, -1905, 5500>>, <<1990, -29775, -1848, 5406>>,
           <<1995, -29692, -1784, 5306>>, <<2000, -29619, -1728, 5186>>, <<2005, -29555, -1669, 5078>>,
           <<2010, -29497, -1586, 4944>>, <<2015, -29442, -1501, 4797>> >>
(* h half days -> thousandths of a year *)
Year(h) == 2000000 + RDiv(27379 * (h + 1), 20000)
Coef(y, c) == LET n == Len(Igrf)
              IN  IF y <= 1000 * Igrf[1][1] THEN Igrf[1][c] ELSE IF y >= 1000 * Igrf[n][1] THEN Igrf[n][c]
                  ELSE LET i == CHOOSE i \in 1..(n - 1) : 1000 * Igrf[i][1] <= y /\ y < 1000 * Igrf[i + 1][1]
                       IN  Igrf[i][c] + RDiv((Igrf[i + 1][c] - Igrf[i][c]) * (y - 1000 * Igrf[i][1]), 5000)
(* the north end of the dipole, in geo: g10 is negative, the moment points south *)
North(h) == LET y == Year(h)  g == Coef(y, 2)  a == RDiv(S * Coef(y, 3), g)  b == RDiv(S * Coef(y, 4), g)
            IN  <<a, b, Isqrt(S * S - a * a - b * b)>>
(* geo -> mag: the dipole is z, and y is along the geographic equator *)
ToMag(h) == LET y == Year(h)  q == North(h)  gx == Coef(y, 3)  gy == Coef(y, 4)
                r == Isqrt(gx * gx + gy * gy)  rho == RDiv(S * r, -Coef(y, 2))
                cl == RDiv(-S * gx, r)  sl == RDiv(-S * gy, r)
            IN  Mul(<< <<q[3], 0, -rho>>, <<0, S, 0>>, <<rho, 0, q[3]>> >>, << <<cl, sl, 0>>, <<-sl, cl, 0>>, <<0, 0, S>> >>)
-----------------------------------------------------------------------------
(* a moment in time: the three rotations that hang the tree from the sky, and the angles of the dipole *)
Still(mu, psi) == [e1 |-> Id3, e2 |-> Id3, e5 |-> Id3, mu |-> mu, psi |-> psi]
Sky(h, s, mu, psi) == [e1 |-> Hap(3, Theta(h, s)), e2 |-> Mul(Hap(3, SunLon(h, s)), Hap(1, Obliquity(h))),
                       e5 |-> ToMag(h), mu |-> mu, psi |-> psi]
Flip == << <<-S, 0, 0>>, <<0, -S, 0>>, <<0, 0, S>> >>
Parent(x) == CASE x = "geo" -> "gei" [] x = "gse" -> "gei" [] x = "gsm" -> "gse" [] x = "sm" -> "gsm" [] x = "mag" -> "geo" [] x = "mhd" -> "gse"
Edge(P, x) == CASE x = "geo" -> P.e1 [] x = "gse" -> P.e2 [] x = "gsm" -> Hap(1, -P.psi) [] x = "sm" -> Hap(2, -P.mu)
                [] x = "mag" -> P.e5 [] x = "mhd" -> Flip
RECURSIVE Up(_)
(* the systems from x up to gei, without gei *)
Up(x) == IF x = "gei" THEN <<>> ELSE <<x>> \o Up(Parent(x))
(* the way from a to b goes up to the first system they share *)
RECURSIVE Down(_, _, _)
Down(P, top, x) == IF x = top THEN Id3 ELSE Mul(Edge(P, x), Down(P, top, Parent(x)))
Members(q) == {q[i] : i \in 1..Len(q)}
Above(x) == Members(Up(x)) \cup {"gei"}
Meet(a, b) == CHOOSE t \in Above(a) \cap Above(b) : \A u \in Above(a) \cap Above(b) : Len(Up(u)) <= Len(Up(t))
Xform(P, a, b) == LET t == Meet(a, b) IN Mul(Down(P, t, b), Tr(Down(P, t, a)))
(* does the way use the magnetic coordinates *)
Uses(a, b, x) == (x \in Above(a)) # (x \in Above(b))
NorthGse(P) == <<Sin(P.mu), RDiv(Cos(P.mu) * Sin(P.psi), S), RDiv(Cos(P.mu) * Cos(P.psi), S)>>
=============================================================================

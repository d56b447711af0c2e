------------------------------ MODULE CotrMC ------------------------------
(* The laws of the tree of coordinate systems, over a lattice of dates and dipole angles. *)
EXTENDS Cotr, TLC
CONSTANTS DayStep, Hours, TiltStep
VARIABLES k, ready
Tilts == {TiltStep * i : i \in -(90 \div TiltStep)..(90 \div TiltStep)}
Days == {h \in -37000..26000 : (h - 1) % DayStep = 0 /\ h % 2 # 0}
Kinds == {<<"sky", h, s, mu, psi>> : h \in Days, s \in {3600 * i + 7 * i * i : i \in Hours}, mu \in {1000 * t : t \in {-30, 0, 13}}, psi \in {-35000, 5000}}
         \cup {<<"still", mu, psi>> : mu \in Tilts, psi \in {4 * t : t \in Tilts}}
         \cup {<<"day", h>> : h \in Days}
Init == ready = FALSE /\ k \in Kinds
Next == ~ready /\ ready' = TRUE /\ UNCHANGED k
T == 8
Coherent(P0) ==
  \A P \in {P0} : \A X \in {[a \in Systems |-> [b \in Systems |-> Xform(P, a, b)]]} :
    /\ \A a \in Systems : Xform(P, a, a) = Id3
    /\ \A a, b \in Systems : /\ IsRot(X[a][b], T)
                             /\ CloseM(X[b][a], Tr(X[a][b]), 0)
    /\ \A a, b, c \in Systems : CloseM(Mul(X[b][c], X[a][b]), X[a][c], T)
    (* the dipole's north end *)
    /\ CloseV(Scaled(Act(Xform(P, "sm", "gse"), <<0, 0, S>>)), NorthGse(P), 4)
    /\ Abs(Xform(P, "sm", "gsm")[2][3]) <= 1
    (* x points to the sun in gse and gsm, y is shared by gsm and sm, z by gse and mhd *)
    /\ CloseV(Col(Xform(P, "gsm", "gse"), 1), <<S, 0, 0>>, 1)
    /\ CloseV(Col(Xform(P, "sm", "gsm"), 2), <<0, S, 0>>, 1)
    /\ CloseV(Col(Xform(P, "mhd", "gse"), 3), <<0, 0, S>>, 0)
    /\ CloseV(Col(Xform(P, "geo", "gei"), 3), <<0, 0, S>>, 1)
Turn(a, b) == LET d == (a - b) % 360000 IN IF d > 180000 THEN d - 360000 ELSE d
Laws == ready =>
    CASE k[1] = "sky" -> LET P == Sky(k[2], k[3], k[4], k[5])
                         IN  /\ Coherent(P)
                             /\ CloseV(Scaled(Act(Xform(P, "geo", "mag"), North(k[2]))), <<0, 0, S>>, 6)
      [] k[1] = "still" -> Coherent(Still(k[2], k[3]))
      [] k[1] = "day" ->
            LET h == k[2]
            IN  (* a sidereal day brings the meridian back, a tropical year the sun *)
                /\ Abs(Turn(Theta(h, 86164), Theta(h, 0))) <= 3
                /\ Abs(Turn(Theta(h + 2, 0), Theta(h, 0)) - 986) <= 3
                /\ Abs(Turn(Theta(h, 86399), Theta(h + 2, 0))) <= 8
                /\ Abs(Turn(SunLon(h, 86400), SunLon(h + 2, 0))) <= 4
                /\ LET d == Turn(SunLon(h + 2, 0), SunLon(h, 0)) IN d >= 950 /\ d <= 1022
                /\ Abs(Turn(SunLon(h + 2 * 1461, 0), SunLon(h, 0)) - 31) <= 12
                (* the meridian the sun is over differs from mean noon by no more than the equation of time *)
                /\ Abs(Turn(SunLon(h, 43200) + 0, Theta(h, 43200))) <= 7000
                /\ Dot(North(h), <<0, 0, 1>>) > 9700
Epoch == /\ Abs(Theta(-1, 43200) - 280461) <= 2
         (* equinox of March 2000 at 07:35: day 79 *)
         /\ Abs(Turn(SunLon(2 * 79 - 1, 27300), 0)) <= 12
         (* solstice of June 2010, 21st 11:28 *)
         /\ Abs(SunLon(2 * 3824 - 1, 41280) - 90000) <= 12
         /\ Year(-1) = 2000000 /\ Isqrt(99) = 9 /\ Isqrt(100) = 10 /\ Isqrt(2000000000) = 44721
ASSUME Epoch
=============================================================================

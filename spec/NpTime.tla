------------------------------ MODULE NpTime ------------------------------
(* Dates and durations.  A time is <<d, s, n>>: whole days (from 1970-01-01 for dates), seconds of the day, nanoseconds
   of the second; the last two are never negative. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

G == 1000000000
Norm(d, s, n) == LET s2 == s + (n \div G)
                 IN  <<d + (s2 \div 86400), s2 % 86400, n % G>>
Zero == <<0, 0, 0>>
Plus(a, b) == Norm(a[1] + b[1], a[2] + b[2], a[3] + b[3])
Less3(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
Minus(a, b) == Norm(a[1] - b[1], a[2] - b[2], a[3] - b[3])
Neg(a) == Minus(Zero, a)
IsNeg(a) == a[1] < 0
AbsT(a) == IF IsNeg(a) THEN Neg(a) ELSE a

(* -------------------------------------------------------------- calendar *)
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthDays(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28
                     [] m \in {4, 6, 9, 11} -> 30
                     [] OTHER -> 31
(* days before the first of March of year y, counting in eras of 400 years *)
DayOf(y, m, d) ==
    LET yy == IF m <= 2 THEN y - 1 ELSE y
        era == yy \div 400
        yoe == yy % 400
        mp == IF m > 2 THEN m - 3 ELSE m + 9
        doy == ((153 * mp + 2) \div 5) + d - 1
        doe == yoe * 365 + (yoe \div 4) - (yoe \div 100) + doy
    IN  era * 146097 + doe - 719468
Civil(day) ==
    LET z == day + 719468
        era == z \div 146097
        doe == z % 146097
        yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
        doy == doe - (365 * yoe + (yoe \div 4) - (yoe \div 100))
        mp == (5 * doy + 2) \div 153
        d == doy - ((153 * mp + 2) \div 5) + 1
        m == IF mp < 10 THEN mp + 3 ELSE mp - 9
    IN  <<yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m, d>>

(* ----------------------------------------------------------------- units *)
Units == <<"ns", "us", "ms", "s", "m", "h", "D">>
Idx(u) == CHOOSE i \in 1..Len(Units) : Units[i] = u
Sub(u) == CASE u = "ns" -> 1 [] u = "us" -> 1000 [] u = "ms" -> 1000000 [] OTHER -> G
Whole(t, u) == CASE u = "D" -> t[2] = 0 /\ t[3] = 0
                 [] u = "h" -> t[2] % 3600 = 0 /\ t[3] = 0
                 [] u = "m" -> t[2] % 60 = 0 /\ t[3] = 0
                 [] u = "s" -> t[3] = 0
                 [] OTHER -> t[3] % Sub(u) = 0
Floor(t, u) == CASE u = "D" -> <<t[1], 0, 0>>
                 [] u = "h" -> <<t[1], t[2] - (t[2] % 3600), 0>>
                 [] u = "m" -> <<t[1], t[2] - (t[2] % 60), 0>>
                 [] u = "s" -> <<t[1], t[2], 0>>
                 [] OTHER -> <<t[1], t[2], t[3] - (t[3] % Sub(u))>>
One(u) == CASE u = "D" -> <<1, 0, 0>> [] u = "h" -> <<0, 3600, 0>> [] u = "m" -> <<0, 60, 0>> [] u = "s" -> <<0, 1, 0>>
            [] OTHER -> <<0, 0, Sub(u)>>
(* the coarsest unit, no coarser than u, in which t is whole *)
Coarsest(t, u) == Units[CHOOSE i \in 1..Idx(u) : Whole(t, Units[i]) /\ \A j \in (i + 1)..Idx(u) : ~Whole(t, Units[j])]
Finest(u, w) == IF Idx(u) <= Idx(w) THEN u ELSE w
(* rounded one way or the other: whole in the unit and less than one of it away *)
Near(t, u, r) == Whole(r, u) /\ Less3(AbsT(Minus(t, r)), One(u)) /\ (Whole(t, u) => r = t)
(* the nearest multiple of 10^-p seconds, the later of two *)
Pow10(p) == CASE p = 0 -> 1 [] p = 1 -> 10 [] p = 2 -> 100 [] p = 3 -> 1000 [] p = 4 -> 10000 [] p = 5 -> 100000 [] p = 6 -> 1000000
              [] p = 7 -> 10000000 [] p = 8 -> 100000000 [] OTHER -> G
Tick(p) == G \div Pow10(p)
RoundTo(t, p) == LET k == Tick(p)
                     down == t[3] - (t[3] % k)
                 IN  IF 2 * (t[3] % k) >= k THEN Norm(t[1], t[2], down + k) ELSE <<t[1], t[2], down>>
Tie(t, p) == 2 * (t[3] % Tick(p)) = Tick(p)

(* count / 10^p of a unit *)
RECURSIVE Times(_, _)
Times(k, t) == IF k = 0 THEN Zero
               ELSE LET h == Times(k \div 2, t) IN
                    LET hh == Plus(h, h) IN IF k % 2 = 1 THEN Plus(hh, t) ELSE hh
Amount(count, p, u) ==
    LET k == IF count < 0 THEN -count ELSE count
        w == k \div Pow10(p)
        f == k % Pow10(p)            \* f / 10^p of the unit
        part == IF p = 0 THEN Zero
                ELSE CASE u = "h" -> Norm(0, (f * 3600) \div Pow10(p), ((f * 3600) % Pow10(p)) * (G \div Pow10(p)))
                       [] u = "m" -> Norm(0, (f * 60) \div Pow10(p), ((f * 60) % Pow10(p)) * (G \div Pow10(p)))
                       [] OTHER -> Norm(0, 0, f * (Sub(u) \div Pow10(p)))
        t == Plus(Times(w, One(u)), part)
    IN  IF count < 0 THEN Neg(t) ELSE t

(* i / n of the way: to within a few nanoseconds *)
Part(t, i, n) ==
    LET d == i * t[1]
        s == (d % n) * 86400 + i * t[2]
        r == s % n
    IN  Norm(d \div n, s \div n, (r * (G \div n)) + ((t[3] \div n) * i) + (((t[3] % n) * i) \div n))
CloseT(a, b, ns) == LET q == AbsT(Minus(a, b)) IN q[1] = 0 /\ q[2] = 0 /\ q[3] <= ns

(* ------------------------------------------------------------------ text *)
RECURSIVE Pad(_, _)
Pad(str, w) == IF Len(str) >= w THEN str ELSE Pad("0" \o str, w)
Z(k, w) == Pad(ToString(k), w)
Frac(t, p) == Z(t[3] \div Tick(p), p)
(* text of parts: << <<"lit", x>>, <<"Y">>, <<"f", digits>>, ... >> *)
Digits(parts) == LET S == {i \in 1..Len(parts) : parts[i][1] = "f"} IN IF S = {} THEN 9 ELSE parts[CHOOSE i \in S : TRUE][2]
RECURSIVE Text(_, _)
Text(t, parts) ==
    IF parts = <<>> THEN ""
    ELSE LET q == parts[1]
             c == Civil(t[1])
             x == CASE q[1] = "lit" -> q[2]
                    [] q[1] = "Y" -> Z(c[1], 4)
                    [] q[1] = "m" -> Z(c[2], 2)
                    [] q[1] = "d" -> Z(c[3], 2)
                    [] q[1] = "H" -> Z(t[2] \div 3600, 2)
                    [] q[1] = "M" -> Z((t[2] \div 60) % 60, 2)
                    [] q[1] = "S" -> Z(t[2] % 60, 2)
                    [] q[1] = "j" -> Z(t[1] - DayOf(c[1], 1, 1) + 1, 3)
                    [] q[1] = "f" -> Frac(t, q[2])
         IN  x \o Text(t, Tail(parts))
(* a fraction is rounded, and what it carries moves everything else *)
Stamp(t, parts) == Text(IF \E i \in 1..Len(parts) : parts[i][1] = "f" THEN RoundTo(t, Digits(parts)) ELSE t, parts)
HMS(s) == Z((s \div 60) % 60, 2) \o ":" \o Z(s % 60, 2)
Secs(t) == t[1] * 86400 + t[2]
Long(t, style) ==
    LET days == IF t[1] = 1 THEN "1 day " ELSE ToString(t[1]) \o " days "
        main == IF style \in {"dhms", "dhmss"} THEN days \o Z(t[2] \div 3600, 2) \o ":" \o HMS(t[2])
                ELSE Z(Secs(t) \div 3600, 2) \o ":" \o HMS(t[2])
    IN  IF style \in {"hmss", "dhmss"} THEN main \o " (" \o Z(Secs(t), 6) \o ")" ELSE main
(* seconds with p decimals *)
Fixed(t, p) ==
    LET neg == IsNeg(t)
        a == RoundTo(AbsT(t), p)
    IN  (IF neg THEN "-" ELSE "") \o ToString(Secs(a)) \o (IF p = 0 THEN "" ELSE "." \o Frac(a, p))
=============================================================================

----------------------------- MODULE NpTimeMC -----------------------------
(* laws of dates and durations: every day of a range, at telling times of day *)
EXTENDS NpTime
CONSTANTS From, To
VARIABLES day, ready
SD == {0, 1, 59, 3599, 43200, 86399}
ND == {0, 1, 499999999, 500000000, 999500000, 999999999}
Clock == {<<s, n>> : s \in SD, n \in ND}
Init == day \in ((-From)..To) /\ ready = FALSE
Next == ready = FALSE /\ ready' = TRUE /\ UNCHANGED day
Cal == LET c == Civil(day)
           n == Civil(day + 1)
       IN  /\ DayOf(c[1], c[2], c[3]) = day
           /\ c[2] \in 1..12 /\ c[3] \in 1..MonthDays(c[1], c[2])
           /\ n = (IF c[3] < MonthDays(c[1], c[2]) THEN <<c[1], c[2], c[3] + 1>>
                   ELSE IF c[2] < 12 THEN <<c[1], c[2] + 1, 1>> ELSE <<c[1] + 1, 1, 1>>)
Few == {<<0, 0, 0>>, <<0, 86399, 999999999>>, <<-1, 86399, 999999999>>, <<0, 3600, 0>>, <<-400, 5, 500000000>>, <<31, 1, 1>>}
Sums == \A c \in Clock : \A b \in Few :
           LET t == <<day, c[1], c[2]>> IN
           /\ Minus(Plus(t, b), b) = t
           /\ Minus(t, Plus(t, b)) = Neg(b)
           /\ Neg(Neg(t)) = t
           /\ (Less3(t, Plus(t, b)) <=> ~IsNeg(b) /\ b # Zero)
Rounds == \A c \in Clock : \A i \in 1..Len(Units) :
           LET t == <<day, c[1], c[2]>>  u == Units[i]  f == Floor(t, u)
           IN  /\ Near(t, u, f) /\ ~Less3(t, f) /\ Floor(f, u) = f
               /\ (Near(t, u, Plus(f, One(u))) <=> f # t)
               /\ Whole(t, Coarsest(t, u))
               /\ (i < Len(Units) => (Whole(t, Units[i + 1]) => Whole(t, u)))
Decimals == \A c \in Clock : \A p \in {0, 1, 3, 6, 9} :
           LET t == <<day, c[1], c[2]>>  r == RoundTo(t, p)  gap == AbsT(Minus(t, r))
           IN  gap[1] = 0 /\ gap[2] = 0 /\ 2 * gap[3] <= Tick(p) /\ r[3] % Tick(p) = 0
Ymd == << <<"Y">>, <<"lit", "-">>, <<"m">>, <<"lit", "-">>, <<"d">> >>
Texts == LET c == Civil(day)
             last == <<day, 86399, 999500000>>
         IN  /\ Stamp(last, Ymd) = Stamp(<<day, 0, 0>>, Ymd)
             /\ Stamp(last, Ymd \o << <<"lit", " ">>, <<"S">>, <<"lit", ".">>, <<"f", 2>> >>) = Stamp(<<day + 1, 0, 0>>, Ymd) \o " 00.00"
             /\ Stamp(<<day, 86399, 250000000>>, << <<"H">>, <<"M">>, <<"S">>, <<"f", 3>> >>) = "235959250"
Amounts == LET k == day IN
           /\ Plus(Amount(k, 1, "s"), Amount(-k, 1, "s")) = Zero
           /\ Amount(60 * k, 0, "s") = Amount(k, 0, "m")
           /\ Amount(k, 1, "h") = Amount(6 * k, 0, "m")
           /\ Amount(k, 3, "s") = Amount(k, 0, "ms")
           /\ Plus(Amount(k, 2, "ms"), Amount(1, 2, "ms")) = Amount(k + 1, 2, "ms")
Parts == \A c \in Clock : \A n \in {1, 2, 3, 7} :
           LET t == <<day, c[1], c[2]>> IN
           /\ CloseT(Part(t, n, n), t, 20) /\ Part(t, 0, n) = Zero
           /\ n = 2 => CloseT(Plus(Part(t, 1, 2), Part(t, 1, 2)), t, 20)
Laws == ready => Cal /\ Sums /\ Rounds /\ Decimals /\ Texts /\ Amounts /\ Parts
=============================================================================

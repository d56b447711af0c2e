---------------------------- MODULE NpTimeTrace ----------------------------
EXTENDS TraceBase, NpTime
(* a result is <<kind, unit, d, s, n>>, kind "dt" or "td" *)
T(g) == <<g[3], g[4], g[5]>>
IsTime(g, kind) == Len(g) = 5 /\ g[1] = kind
Value(e, kind, t) == IF IsTime(e.got, kind) THEN Chk("value", T(e.got), t) ELSE << <<"time", <<kind, t>> >> >>
Unit(e, u) == IF u # "" /\ Len(e.got) = 5 THEN Chk("unit", e.got[2], u) ELSE <<>>
(* what a text says *)
Said(x) == Plus(<<DayOf(x.y, x.mo, x.d), x.s, 0>>, x.f)
All(es, P(_, _), q) == IF Len(es) # Len(q) THEN << <<"length", Len(q)>> >>
                       ELSE IF \A i \in 1..Len(q) : P(es[i], q[i]) THEN <<>> ELSE << <<"each", q>> >>
(* what looks like a date, like a duration: kinds of values, one or all of many *)
DateKinds(cons) == {"dt", "datetext"} \cup (IF cons THEN {} ELSE {"numtext"})
SpanKinds(cons) == {"td", "clocktext"} \cup (IF cons THEN {} ELSE {"num", "numtext"})
Like(k, many, w, cons) ==
    LET one(S) == \A i \in 1..Len(k) : k[i] \in S
    IN  CASE w = "date" -> one(DateKinds(cons))
          [] w = "span" -> one(SpanKinds(cons))
          [] OTHER -> one(DateKinds(cons)) \/ one(SpanKinds(cons))
Judge(init, e) ==
    IF e.exc # "" THEN << <<"raised", e.op>> >>
    ELSE
    CASE e.op = "read" -> LET t == Said(e.x) IN
             Value(e, "dt", t) \o (IF e.unit = "" THEN <<>> ELSE Unit(e, e.unit))
      [] e.op = "iso" -> Chk("text", e.got, <<"txt">> \o [i \in 1..Len(e.xs) |-> Text(Said(e.xs[i]), e.xs[i].parts)])
      [] e.op = "amount" -> LET t == Amount(e.count, e.p, e.u) IN Value(e, "td", t) \o Unit(e, Coarsest(t, e.u))
      [] e.op = "native" -> IF Len(e.got) = 5 /\ e.got[1] = e.kind /\ Near(e.t, "us", T(e.got)) THEN <<>> ELSE << <<"value", e.t>> >>
      [] e.op = "recast" -> IF IsTime(e.got, e.kind) /\ Near(e.t, e.unit, T(e.got)) THEN Unit(e, e.unit) ELSE << <<"value", e.t>> >>
      [] e.op = "sum" -> Value(e, "dt", Plus(e.t, e.by)) \o Unit(e, e.unit)
      [] e.op = "diff" -> Value(e, "td", Minus(e.t, e.by)) \o Unit(e, e.unit)
      [] e.op = "round" -> All(e.got, LAMBDA g, w : g[1] = w.kind /\ IF Idx(w.u) >= Idx(e.unit) THEN T(g) = w.t /\ g[2] = w.u
                                                                  ELSE Near(w.t, e.unit, T(g)) /\ g[2] = e.unit, e.ts)
      [] e.op = "regular" -> LET u == IF e.unit # "" THEN e.unit ELSE Units[CHOOSE i \in 1..Len(Units) : (\E k \in 1..Len(e.ts) : e.ts[k].u = Units[i])
                                                                                     /\ \A k \in 1..Len(e.ts) : Idx(e.ts[k].u) >= i]
                             IN All(e.got, LAMBDA g, w : g[1] = w.kind /\ Near(w.t, u, T(g)) /\ (e.most \/ g[2] = u), e.ts)
                                \o ChkT("common", \A i, j \in 1..Len(e.got) : e.got[i][2] = e.got[j][2])
      [] e.op = "linspace" -> LET m == IF e.endpoint THEN e.n - 1 ELSE e.n
                                  span == Minus(e.t1, e.t0)
                              IN  All(e.got, LAMBDA g, w : g[1] = "dt" /\ CloseT(T(g), w, 1000),
                                      [i \in 1..e.n |-> Plus(e.t0, IF m = 0 THEN Zero ELSE IF i - 1 = m THEN span ELSE Part(span, i - 1, m))])
      [] e.op = "secs" -> IF IsTime(e.got, e.kind) /\ (T(e.got) = RoundTo(e.t, e.p) \/ (Tie(e.t, e.p) /\ T(e.got) = Floor(e.t, "s"))
                                                      \/ (Tie(e.t, e.p) /\ Plus(T(e.got), <<0, 0, Tick(e.p)>>) = RoundTo(e.t, e.p)))
                          THEN <<>> ELSE << <<"value", RoundTo(e.t, e.p)>> >>
      [] e.op = "stamp" -> Chk("text", e.got, <<"txt", Stamp(e.t, e.parts)>>)
      [] e.op = "long" -> Chk("text", e.got, <<"txt", Long(e.t, e.style)>>)
      [] e.op = "fixed" -> Chk("text", e.got, <<"txt", Fixed(Minus(e.t, e.base), e.p)>>)
      [] e.op = "like" -> Chk("like", e.got, Like(e.k, e.many, e.w, e.cons))
      [] OTHER -> << <<"unknown", e.op>> >>
EInit(init) == <<>>
Init == TInit(EInit)
Next == PNext(Judge)
Spec == Init /\ [][Next]_vars
=============================================================================

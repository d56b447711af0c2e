--------------------------- MODULE InterpTrace ---------------------------
EXTENDS Interp, TraceBase
S == 1000
(* g is the value in thousandths *)
Close(A, c, t, g) == LET n == Numer(A, c, t)
                         d == Denom(A, t)
                         e == g * d - S * n
                     IN  e <= d /\ -e <= d
Linear(A, t, q) == Len(q) = C1(A) /\ \A c \in 1..C1(A) : Close(A, c, t, q[c])
Near(A, t, q) == q \in {[c \in 1..C1(A) |-> S * x[c]] : x \in ValuesNear(A, t)}
Fits(A, kind, t, q) == IF kind = "linear" THEN Linear(A, t, q) ELSE Near(A, t, q)
RECURSIVE All(_, _, _, _, _)
All(A, kind, ts, qs, k) ==
    IF k > Len(ts) THEN <<>>
    ELSE IF Fits(A, kind, ts[k], qs[k]) THEN All(A, kind, ts, qs, k + 1)
    ELSE << <<"value", [point |-> ts[k], got |-> qs[k], num |-> [c \in 1..C1(A) |-> Numer(A, c, ts[k])], den |-> Denom(A, ts[k])]>> >>
Rows(v, n) == [k \in 1..(Len(v) \div n) |-> SubSeq(v, (k - 1) * n + 1, k * n)]
Values(A, kind, ts, v) == IF Len(v) # Len(ts) * C1(A) THEN << <<"size", Len(ts) * C1(A)>> >>
                          ELSE All(A, kind, ts, Rows(v, C1(A)), 1)
Free(ax, pins) == SelectSeq([i \in 1..Len(ax) |-> i], LAMBDA i : pins[i] = <<>>)
(* the points of a slice: free axes at their places, the others where they are pinned *)
Sliced(ax, pins) ==
    LET fr == Free(ax, pins)
        sub == [i \in 1..Len(fr) |-> ax[fr[i]]]
        P == Points(sub)
    IN  [k \in 1..Len(P) |-> [a \in 1..Len(ax) |-> IF pins[a] # <<>> THEN pins[a][1]
                                                   ELSE P[k][CHOOSE i \in 1..Len(fr) : fr[i] = a]]]
Judge(init, e) ==
    LET A == e.a
        pure == ChkT("pure", e.pure)
        R == CASE e.got[1] = "exc" -> << <<"runs", TRUE>> >>
               [] e.op = "interp" -> Values(A, e.kind, e.pts, e.got[2])
               [] e.op = "on" -> Chk("nc", e.got[2].nc, A.nc) \o Chk("coordinates", e.got[2].ax, e.g)
                                 \o Values(A, e.kind, Points(e.g), e.got[2].v)
               [] e.op = "slice" ->
                    LET fr == Free(A.ax, e.pins)
                        want == [i \in 1..Len(fr) |-> A.ax[fr[i]]]
                    IN  IF e.got[1] = "num" THEN Chk("coordinates", fr, <<>>) \o Values(A, "linear", Sliced(A.ax, e.pins), <<e.got[2]>>)
                        ELSE Chk("nc", e.got[2].nc, A.nc)
                             \o (IF \A i \in 1..Len(want) : Len(want[i].p) > 1 THEN Chk("coordinates", e.got[2].ax, want) ELSE <<>>)
                             \o Values(A, "linear", Sliced(A.ax, e.pins), e.got[2].v)
    IN  pure \o R
EInit(i) == <<>>
Init == TInit(EInit)
Next == PNext(Judge)
Spec == Init /\ [][Next]_vars
=============================================================================

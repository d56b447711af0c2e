---------------------------- MODULE LazySelTrace ----------------------------
(* fields that read from disk when asked: selections are judged as in FieldSelTrace; "fwd" events judge the translation
   of slices into ones that only go forward *)
EXTENDS FieldSelJudge

(* shape, rev, sl (one selection per dimension, or <<"new">>), got [tag |-> "fwd", forward, shape, data] or exc:
   the array numbered in C order, dimensions with rev flipped, then sliced *)
FwdJudge(e) ==
    LET n == Len(e.sl)
        dimOf == [i \in 1..n |-> IF e.sl[i][1] = "new" THEN 0
                                 ELSE Cardinality({j \in 1..i : e.sl[j][1] # "new"})]
        idx == [i \in 1..n |->
                 IF dimOf[i] = 0 THEN <<0>>
                 ELSE LET L == e.shape[dimOf[i]]
                          c == [k \in 1..L |-> k]
                          a == CHOOSE x \in Answers(c, e.sl[i], TRUE, FALSE) : TRUE
                      IN  [k \in 1..Len(a) |-> IF e.rev[dimOf[i]] THEN L - 1 - a[k] ELSE a[k]]]
        lens == [i \in 1..n |-> Len(idx[i])]
        N == Prod(lens)
        str == [i \in 1..n |-> IF dimOf[i] = 0 THEN 0 ELSE Prod(SubSeq(e.shape, dimOf[i] + 1, Len(e.shape)))]
        w == [i \in 1..n |-> Prod(SubSeq(lens, i + 1, n))]
        Src(k) == SumSeq([i \in 1..n |-> idx[i][((k \div w[i]) % lens[i]) + 1] * str[i]])
        Kept(i) == e.sl[i][1] # "i"
        keep == SelectSeq([i \in 1..n |-> i], Kept)
    IN  IF N = 0 THEN ChkT("fwd-empty", e.got.tag = "exc" \/ e.got.data = <<>>)
        ELSE IF e.got.tag = "exc" THEN << <<"fwd-accepted", [i \in 1..N |-> Src(i - 1)]>> >>
        ELSE ChkT("fwd-forward", e.got.forward)
             \o Chk("fwd-shape", e.got.shape, [k \in 1..Len(keep) |-> lens[keep[k]]])
             \o Chk("fwd-values", e.got.data, [i \in 1..N |-> Src(i - 1)])

Judge(init, e) == IF e.kind = "fwd" THEN FwdJudge(e) ELSE SelJudge(e.f, e.items, e.how, e.got)
EInit(init) == <<>>
Init == TInit(EInit)
Next == PNext(Judge)
Spec == Init /\ [][Next]_vars
=============================================================================

--------------------------- MODULE FileNamesTrace ---------------------------
EXTENDS TraceBase, FileNames

IsSliced(p) == Len(p.sel) > 0
Whole(p) == IF IsSliced(p) THEN Star(p.pre, p.suf) ELSE p.pre
Distinct(q) == \A i \in 1..Len(q) : \A j \in 1..Len(q) : q[i] = q[j] => i = j

(* by value among files of one number, or of equal numbers: not claimed *)
ByValue(sel) == sel[1] = "s" /\ (sel[2][1] = "v" \/ sel[3][1] = "v")
Unclear(v, sel) == ByValue(sel) /\ (Cardinality(DOMAIN v) < 2 \/ \E i \in DOMAIN v : \E j \in DOMAIN v : i # j /\ v[i] = v[j])
JudgePick(names, e) ==
    LET p == e.pat
        m == Matching(names, Whole(p))
    IN  IF ~IsSliced(p)
        THEN IF e.got[1] # "ok" THEN Chk("wild", e.got[1], "ok")
             ELSE ChkT("wild", Distinct(e.got[2]) /\ {e.got[2][k] : k \in 1..Len(e.got[2])} = m)
        ELSE IF m = {} THEN IF e.gentle THEN ChkT("empty", e.got[1] = "ok" /\ Len(e.got[2]) = 0)
                            ELSE ChkT("refuse", e.got[1] = "exc" /\ e.got[2] = "OSError")
        ELSE IF Ambiguous(names, p.pre, p.suf) THEN <<>>
        ELSE IF Numbered(names, p.pre, p.suf) = {} THEN ChkT("none", e.got[1] = "exc" \/ Len(e.got[2]) = 0)
        ELSE LET v == ValueOf(names, p.pre, p.suf)
                 want == NumbersMeant(names, p.pre, p.suf, p.sel)
                 ok == IF want = {} THEN e.got[1] = "exc"
                       ELSE /\ e.got[1] = "ok"
                            /\ Distinct(e.got[2])
                            /\ \A k \in 1..Len(e.got[2]) : e.got[2][k] \in DOMAIN v
                            /\ [k \in 1..Len(e.got[2]) |-> v[e.got[2][k]]] \in want
             IN  IF ok \/ Unclear(v, p.sel) THEN <<>> ELSE << <<"slice", want>> >>

(* the files a pattern picks, as a set; several are picked together *)
PickedBy(names, p) ==
    IF ~IsSliced(p) THEN Matching(names, p.pre)
    ELSE LET v == ValueOf(names, p.pre, p.suf)
             want == NumbersMeant(names, p.pre, p.suf, p.sel)
             w == CHOOSE w \in want : TRUE
         IN  {i \in DOMAIN v : \E k \in 1..Len(w) : w[k] = v[i]}
Clear(names, p) ==
    \/ ~IsSliced(p)
    \/ /\ ~Ambiguous(names, p.pre, p.suf)
       /\ Numbered(names, p.pre, p.suf) # {}
       /\ Distinct(SortBag(Numbered(names, p.pre, p.suf), ValueOf(names, p.pre, p.suf)))
       /\ ~Unclear(ValueOf(names, p.pre, p.suf), p.sel)
       /\ Cardinality(NumbersMeant(names, p.pre, p.suf, p.sel)) = 1
JudgeOpen(names, fs, e) ==
    IF \E k \in 1..Len(e.pats) : ~Clear(names, e.pats[k]) THEN <<>>
    ELSE LET by == [k \in 1..Len(e.pats) |-> PickedBy(names, e.pats[k])]
             all == UNION {by[k] : k \in 1..Len(by)}
             twice == \E i \in 1..Len(by) : \E j \in 1..Len(by) : i < j /\ by[i] \cap by[j] # {}
             exp == Opened(fs, all, e.ft)
         IN  IF twice THEN <<>>
             ELSE IF ~CanOpen(fs, all, e.ft) THEN ChkT("unknown type", e.got[1] = "exc" /\ e.got[2] = "RuntimeError")
             ELSE IF e.got[1] # "ok" THEN << <<"open", exp>> >>
             ELSE LET g == e.got[2]
                  IN  IF Len(g) = Cardinality(exp) /\ {g[k] : k \in 1..Len(g)} = exp THEN <<>> ELSE << <<"open", exp>> >>

Judge(init, e) ==
    CASE e.op = "pick" -> JudgePick(init.names, e)
      [] e.op = "type" -> Chk("type", e.got, Type(e.n, e.wish))
      [] e.op = "byname" -> LET exp == ByName(e.text, init.types) IN IF e.got \in exp THEN <<>> ELSE << <<"byname", exp>> >>
      [] e.op = "open" -> JudgeOpen(init.names, init.files, e)
      [] OTHER -> << <<"unknown", e.op>> >>
EInit(init) == <<>>
Init == TInit(EInit)
Next == PNext(Judge)
Spec == Init /\ [][Next]_vars
=============================================================================

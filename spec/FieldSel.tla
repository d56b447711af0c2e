------------------------------ MODULE FieldSel ------------------------------
(* Selecting from a field.  A field is
     [axes  |-> sequence of [name, nc, cc],    node and cell centre coordinates
      cell  |-> BOOLEAN,                       whether values live at cell centres
      ncomp |-> 0 for scalars, or the number of vector components]
   Its value at spatial position <<i1, ..., ik>> and component m is the number Lin(i) * ncomp + m: every value says
   where it came from.
   A selection is a sequence of items [ax, sel]: ax is "" or the name of an axis; sel is a selection of Select.tla, or
   <<"new">> (a new axis), <<"...">> (as many whole axes as needed) or <<"comp", k>>. *)
EXTENDS Select

NameOf(axs) == [i \in 1..Len(axs) |-> axs[i].name]
Crd(f, i) == IF f.cell THEN f.axes[i].cc ELSE f.axes[i].nc
IndexOf(seq, x) == IF \E i \in 1..Len(seq) : seq[i] = x THEN CHOOSE i \in 1..Len(seq) : seq[i] = x ELSE 0
Has(seq, x) == IndexOf(seq, x) # 0
NewNames == <<"new-x0", "new-x1", "new-x2", "new-x3">>

(* which selection each axis gets: a sequence of [name, sel, new], or refused *)
Refused == [ok |-> FALSE, sure |-> TRUE, out |-> <<>>, comp |-> -1]
IsFull(sel) == sel = <<"all">> \/ sel = <<"s", <<"n">>, <<"n">>, 1>>
RECURSIVE Fill(_, _, _, _, _)
(* over: whether a name may replace a full selection made before it *)
Fill(items, rem, out, axn, over) ==      \* rem: names of axes that no unnamed item has taken yet
    IF items = <<>>
    THEN [ok |-> TRUE, out |-> out \o [i \in 1..Len(rem) |-> [name |-> rem[i], sel |-> <<"all">>, new |-> FALSE]]]
    ELSE LET it == Head(items)
             names == NameOf(out)
             nn == Cardinality({i \in 1..Len(out) : Has(NewNames, out[i].name)})
         IN  IF it.sel[1] = "new"
             THEN LET nm == IF it.ax = "" THEN NewNames[nn + 1] ELSE it.ax
                  IN  IF Has(names, nm) \/ Has(axn, nm) THEN [ok |-> FALSE, out |-> <<>>]
                      ELSE Fill(Tail(items), rem, Append(out, [name |-> nm, sel |-> <<"new">>, new |-> TRUE]), axn, over)
             ELSE IF it.ax = ""
             THEN IF rem = <<>> THEN [ok |-> FALSE, out |-> <<>>]
                  ELSE Fill(Tail(items), Tail(rem), Append(out, [name |-> Head(rem), sel |-> it.sel, new |-> FALSE]), axn, over)
             ELSE IF Has(names, it.ax)
             THEN LET j == IndexOf(names, it.ax)
                  IN  IF ~over \/ ~IsFull(out[j].sel) THEN [ok |-> FALSE, out |-> <<>>]
                      ELSE Fill(Tail(items), rem, [out EXCEPT ![j].sel = it.sel], axn, over)
             ELSE IF Has(rem, it.ax)
             THEN LET k == IndexOf(rem, it.ax)
                      sk == [i \in 1..(k - 1) |-> [name |-> rem[i], sel |-> <<"all">>, new |-> FALSE]]
                  IN  Fill(Tail(items), SubSeq(rem, k + 1, Len(rem)),
                           out \o sk \o << [name |-> it.ax, sel |-> it.sel, new |-> FALSE] >>, axn, over)
             ELSE [ok |-> FALSE, out |-> <<>>]

IsComp(it) == it.sel[1] = "comp"
NotComp(it) == ~IsComp(it)
IsEll(it) == it.sel[1] = "..."

Assign(f, items0) ==
    LET axn == NameOf(f.axes)
        cs == SelectSeq(items0, IsComp)
        items == SelectSeq(items0, NotComp)
        es == {i \in 1..Len(items) : IsEll(items[i])}
        comp == IF cs = <<>> THEN -1 ELSE cs[1].sel[2]
        nnew == Cardinality({i \in 1..Len(items) : items[i].sel[1] = "new"})
        named == {i \in 1..Len(items) : items[i].ax # "" /\ items[i].sel[1] # "new"}
        fill == Len(axn) + nnew - (Len(items) - 1)
        All(k) == [i \in 1..k |-> [ax |-> "", sel |-> <<"all">>]]
    IN  IF Len(cs) > 1 \/ (cs # <<>> /\ f.ncomp = 0) \/ Cardinality(es) > 1 \/ (es # {} /\ named # {}) \/ (es # {} /\ fill < 0)
        THEN Refused
        ELSE LET full == IF es = {} THEN items
                         ELSE LET e == CHOOSE i \in es : TRUE
                              IN  SubSeq(items, 1, e - 1) \o All(fill) \o SubSeq(items, e + 1, Len(items))
                 r == Fill(full, axn, <<>>, axn, TRUE)
             IN  [ok |-> r.ok, sure |-> Fill(full, axn, <<>>, axn, FALSE).ok, out |-> r.out, comp |-> comp]

(* positions selected along every entry of the assignment; dropped marks axes that disappear *)
AxOf(f, nm) == IndexOf(NameOf(f.axes), nm)
Entry(f, o, how) ==
    IF o.new THEN [name |-> o.name, idx |-> <<0>>, drop |-> FALSE, new |-> TRUE, arr |-> FALSE, ok |-> TRUE]
    ELSE LET i == AxOf(f, o.name)
             c == Crd(f, i)
             A == Answers(c, o.sel, TRUE, FALSE)
             lone == how = "reduce" /\ Len(c) = 1 /\ \A a \in A : Len(a) = 1     \* axes of length one that are kept go
         IN  IF A = {} THEN [name |-> o.name, idx |-> <<>>, drop |-> FALSE, new |-> FALSE, arr |-> FALSE, ok |-> FALSE]
             ELSE [name |-> o.name, idx |-> CHOOSE a \in A : TRUE,
                   drop |-> (Drops(o.sel) /\ how # "keep") \/ lone, new |-> FALSE, arr |-> o.sel[1] \in {"ia", "va", "m"}, ok |-> TRUE]

Prod(s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN 1 ELSE F[i - 1] * s[i] IN F[Len(s)]
SumSeq(s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE F[i - 1] + s[i] IN F[Len(s)]
Stride(f, i) == Prod([k \in 1..(Len(f.axes) - i) |-> Len(Crd(f, i + k))])

(* the result: names and coordinates of the axes that remain, the values in C order (components last), dropped axes *)
Select(f, items, how) ==
    LET a == Assign(f, items)
        en == [i \in 1..Len(a.out) |-> Entry(f, a.out[i], how)]
        lens == [i \in 1..Len(en) |-> Len(en[i].idx)]
        N == Prod(lens)
        st == [i \in 1..Len(en) |-> IF en[i].new THEN 0 ELSE Stride(f, AxOf(f, en[i].name))]
        w == [i \in 1..Len(en) |-> Prod(SubSeq(lens, i + 1, Len(lens)))]
        Src(n) == SumSeq([i \in 1..Len(en) |-> en[i].idx[((n \div w[i]) % lens[i]) + 1] * st[i]])
        comps == IF f.ncomp = 0 THEN <<0>> ELSE IF a.comp >= 0 THEN <<a.comp>> ELSE [m \in 1..f.ncomp |-> m - 1]
        nc == Len(comps)
        m == IF f.ncomp = 0 THEN 1 ELSE f.ncomp
        Keep(e) == ~e.drop
        Gone(e) == e.drop
    IN  IF ~a.ok \/ \E i \in 1..Len(en) : ~en[i].ok THEN [ok |-> FALSE, sure |-> TRUE, empty |-> FALSE]
        ELSE IF N = 0 THEN [ok |-> TRUE, sure |-> TRUE, empty |-> TRUE]
        ELSE [ok |-> TRUE, sure |-> a.sure, empty |-> FALSE,
              axes |-> SelectSeq(en, Keep),
              gone |-> SelectSeq(en, Gone),
              data |-> [j \in 1..(N * nc) |-> Src((j - 1) \div nc) * m + comps[((j - 1) % nc) + 1]],
              ncomp |-> IF f.ncomp > 0 /\ a.comp < 0 THEN f.ncomp ELSE 0]

Take(c, idx) == [i \in 1..Len(idx) |-> c[idx[i] + 1]]
Unit(idx) == \A i \in 1..(Len(idx) - 1) : idx[i + 1] - idx[i] = 1
UnitBack(idx) == Len(idx) > 1 /\ \A i \in 1..(Len(idx) - 1) : idx[i + 1] - idx[i] = -1
(* edges of the selected cells, for contiguous selections *)
Edges(nc, idx) == IF Unit(idx) THEN Append(Take(nc, idx), nc[idx[Len(idx)] + 2])
                  ELSE LET up == [i \in 1..Len(idx) |-> nc[idx[i] + 2]] IN Append(up, nc[idx[Len(idx)] + 1])
(* a lone cell has no direction *)
EdgesOK(nc, idx) == IF Len(idx) = 1 THEN {Edges(nc, idx), <<nc[idx[1] + 2], nc[idx[1] + 1]>>} ELSE {Edges(nc, idx)}
=============================================================================

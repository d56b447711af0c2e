------------------------------- MODULE Bucket -------------------------------
(* The many-handles-per-item dictionary: abstract state and one operator per public operation.
   State: [ent |-> sequence of [it, hs, ref] in insertion order, ctr |-> next index handle]
   Handles are strings; index handle n is "#n".  "!..." is a handle that cannot be hashed. *)
EXTENDS Integers, Sequences, FiniteSets

Empty == [ent |-> <<>>, ctr |-> 0]

IdxName(n) == CASE n = 0 -> "#0" [] n = 1 -> "#1" [] n = 2 -> "#2" [] n = 3 -> "#3" [] n = 4 -> "#4" [] n = 5 -> "#5"
    [] n = 6 -> "#6" [] n = 7 -> "#7" [] n = 8 -> "#8" [] n = 9 -> "#9" [] n = 10 -> "#10" [] n = 11 -> "#11"
    [] n = 12 -> "#12" [] n = 13 -> "#13" [] n = 14 -> "#14" [] n = 15 -> "#15" [] n = 16 -> "#16" [] n = 17 -> "#17"
    [] OTHER -> "#big"

Unhashable(h) == h = "!u"

Range(q) == {q[i] : i \in 1..Len(q)}
Without(q, x) == SelectSeq(q, LAMBDA y : y # x)

HasItem(b, it) == \E i \in 1..Len(b.ent) : b.ent[i].it = it
Entry(b, it) == b.ent[CHOOSE i \in 1..Len(b.ent) : b.ent[i].it = it]
HasHandle(b, h) == \E i \in 1..Len(b.ent) : h \in Range(b.ent[i].hs)
Owner(b, h) == b.ent[CHOOSE i \in 1..Len(b.ent) : h \in Range(b.ent[i].hs)].it

Drop(b, it) == [b EXCEPT !.ent = SelectSeq(b.ent, LAMBDA e : e.it # it)]

(* take handle h away from its owner, an owner left with no handle is dropped *)
Steal(b, h) ==
    LET stripped == [i \in 1..Len(b.ent) |-> [b.ent[i] EXCEPT !.hs = Without(@, h)]]
    IN  [b EXCEPT !.ent = SelectSeq(stripped, LAMBDA e : e.hs # <<>>)]

Give(b, it, h) ==
    IF HasItem(b, it)
    THEN [b EXCEPT !.ent = [i \in 1..Len(b.ent) |->
             IF b.ent[i].it = it THEN [b.ent[i] EXCEPT !.hs = Append(@, h)] ELSE b.ent[i]]]
    ELSE b

RECURSIVE Claim(_, _, _, _)
(* acc: the handles a new item has collected so far *)
Claim(b, it, hs, acc) ==
    IF hs = <<>> THEN [b |-> b, acc |-> acc]
    ELSE LET h == Head(hs)
         IN  IF Unhashable(h) \/ h \in Range(acc) \/ (HasHandle(b, h) /\ Owner(b, h) = it)
             THEN Claim(b, it, Tail(hs), acc)
             ELSE Claim(IF HasHandle(b, h) THEN Steal(b, h) ELSE b, it, Tail(hs), Append(acc, h))

SetItem(b, hs, it, idx, addref) ==
    LET isnew == ~HasItem(b, it)
        hs2 == IF isnew /\ idx THEN Append(hs, IdxName(b.ctr)) ELSE hs
        b1 == IF isnew /\ idx THEN [b EXCEPT !.ctr = @ + 1] ELSE b
        r == Claim(b1, it, hs2, <<>>)
    IN  IF isnew
        THEN IF r.acc = <<>> THEN r.b
             ELSE [r.b EXCEPT !.ent = Append(@, [it |-> it, hs |-> r.acc, ref |-> 1])]
        ELSE [r.b EXCEPT !.ent = [i \in 1..Len(@) |->
                 IF @[i].it = it
                 THEN [@[i] EXCEPT !.hs = @ \o r.acc, !.ref = @ + (IF addref THEN 1 ELSE 0)]
                 ELSE @[i]]]

RemoveItem(b, it) == IF HasItem(b, it) THEN [ok |-> TRUE, b |-> Drop(b, it)] ELSE [ok |-> FALSE, b |-> b]
RemoveHandle(b, h) == IF HasHandle(b, h) THEN [ok |-> TRUE, b |-> Drop(b, Owner(b, h))] ELSE [ok |-> FALSE, b |-> b]

(* release k references; the item goes when none is left *)
RemoveRef(b, it, k) ==
    IF ~HasItem(b, it) THEN [ok |-> FALSE, b |-> b]
    ELSE LET n == Entry(b, it).ref - k
         IN  [ok |-> TRUE,
              b |-> IF n <= 0 THEN Drop(b, it)
                    ELSE [b EXCEPT !.ent = [i \in 1..Len(b.ent) |->
                             IF b.ent[i].it = it THEN [b.ent[i] EXCEPT !.ref = n] ELSE b.ent[i]]]]

Clear(b) == [b EXCEPT !.ent = <<>>]

------------------------------------------------------------------------------
(* what must hold of every reachable state *)
OneOwner(b) == \A i, j \in 1..Len(b.ent) : i # j => Range(b.ent[i].hs) \cap Range(b.ent[j].hs) = {}
OneEntry(b) == \A i, j \in 1..Len(b.ent) : i # j => b.ent[i].it # b.ent[j].it
Reachable(b) == \A i \in 1..Len(b.ent) : b.ent[i].hs # <<>> /\ \A h \in Range(b.ent[i].hs) : Owner(b, h) = b.ent[i].it
NoDupHandles(b) == \A i \in 1..Len(b.ent) : Cardinality(Range(b.ent[i].hs)) = Len(b.ent[i].hs)
Referenced(b) == \A i \in 1..Len(b.ent) : b.ent[i].ref >= 1
BucketInv(b) == OneOwner(b) /\ OneEntry(b) /\ Reachable(b) /\ NoDupHandles(b) /\ Referenced(b)
=============================================================================

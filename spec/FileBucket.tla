----------------------------- MODULE FileBucket -----------------------------
(* The bucket of open files.  A plain file is parsed once into an object; a container file, when parsed, loads
   its children through the same bucket and holds counted references to them until it is unloaded.
   State f:
     ent   sequence, in insertion order, of [name, ref, idx, obj, ver, kids]
             obj  identity of the object handed out;  ver  version of the disk file its contents show
             kids sequence of <<child name, references held>>
     ctr   next index handle            nobj  objects created so far
     disk  name -> version now on disk  (BAD: reading it raises IOError)
     dead  objects that were unloaded *)
EXTENDS Integers, Sequences, FiniteSets

BAD == -1

FInit(disk) == [ent |-> <<>>, ctr |-> 0, nobj |-> 0, disk |-> disk, dead |-> {}]

In(f, n) == \E i \in 1..Len(f.ent) : f.ent[i].name = n
At(f, n) == f.ent[CHOOSE i \in 1..Len(f.ent) : f.ent[i].name = n]
Upd(f, n, e) == [f EXCEPT !.ent = [i \in 1..Len(f.ent) |-> IF f.ent[i].name = n THEN e ELSE f.ent[i]]]
Bump(kids, c) ==
    IF \E i \in 1..Len(kids) : kids[i][1] = c
    THEN [i \in 1..Len(kids) |-> IF kids[i][1] = c THEN <<c, kids[i][2] + 1>> ELSE kids[i]]
    ELSE Append(kids, <<c, 1>>)

RECURSIVE Load(_, _, _, _, _), LoadKids(_, _, _, _)
(* KIDS: name -> sequence of child names.  user: requested by the user (gets an index handle, adds no reference
   to a file that is already there) rather than by a container. Result [f, ok] *)
Load(KIDS, f, n, user, acc) ==
    IF In(f, n)
    THEN [f |-> IF user THEN f ELSE Upd(f, n, [At(f, n) EXCEPT !.ref = @ + 1]), ok |-> TRUE]
    ELSE IF f.disk[n] = BAD THEN [f |-> f, ok |-> FALSE]
    ELSE LET me == f.nobj + 1
             k == LoadKids(KIDS, [f EXCEPT !.nobj = me], KIDS[n], <<>>)
             e == [name |-> n, ref |-> 1, idx |-> IF user THEN k.f.ctr ELSE -1, obj |-> me, ver |-> f.disk[n],
                   kids |-> k.kids]
         IN  [f |-> [k.f EXCEPT !.ent = Append(@, e), !.ctr = IF user THEN @ + 1 ELSE @], ok |-> TRUE]
LoadKids(KIDS, f, ns, kids) ==
    IF ns = <<>> THEN [f |-> f, kids |-> kids]
    ELSE LET r == Load(KIDS, f, Head(ns), FALSE, 0)
         IN  LoadKids(KIDS, r.f, Tail(ns), IF r.ok THEN Bump(kids, Head(ns)) ELSE kids)

RECURSIVE Unload(_, _, _), UnloadKids(_, _)
(* release k references of n; the last one drops it, empties it and releases its children *)
Unload(f, n, k) ==
    LET e == At(f, n)
    IN  IF e.ref - k > 0 THEN Upd(f, n, [e EXCEPT !.ref = @ - k])
        ELSE UnloadKids([f EXCEPT !.ent = SelectSeq(f.ent, LAMBDA x : x.name # n), !.dead = @ \cup {e.obj}], e.kids)
UnloadKids(f, kids) ==
    IF kids = <<>> THEN f
    ELSE LET c == Head(kids)
         IN  UnloadKids(IF In(f, c[1]) THEN Unload(f, c[1], c[2]) ELSE f, Tail(kids))

RECURSIVE Reload(_, _, _), ReloadKids(_, _, _)
(* re-read n in place, children first *)
Reload(KIDS, f, n) ==
    LET f1 == ReloadKids(KIDS, f, At(f, n).kids)
        e == At(f1, n)
        k == LoadKids(KIDS, f1, KIDS[n], e.kids)
        e2 == At(k.f, n)
    IN  Upd(k.f, n, [e2 EXCEPT !.ver = f.disk[n], !.kids = k.kids])
ReloadKids(KIDS, f, kids) ==
    IF kids = <<>> THEN f
    ELSE ReloadKids(KIDS, IF In(f, Head(kids)[1]) THEN Reload(KIDS, f, Head(kids)[1]) ELSE f, Tail(kids))

(* loaded with a counted reference of its own, re-read if asked to *)
Hold(KIDS, f, n, force) ==
    IF ~In(f, n) THEN Load(KIDS, f, n, TRUE, 0).f
    ELSE LET g == IF force THEN Reload(KIDS, f, n) ELSE f
         IN  Upd(g, n, [At(g, n) EXCEPT !.ref = @ + 1])

(* removed outright, however many references there are: unloaded once, then dropped *)
Remove(f, n) ==
    LET o == At(f, n).obj
        g == Unload(f, n, 1)
    IN  IF In(g, n) THEN [g EXCEPT !.ent = SelectSeq(g.ent, LAMBDA x : x.name # n)] ELSE g

RemoveAll(f) == [f EXCEPT !.ent = <<>>]

RECURSIVE Deep(_, _, _)
(* can every file n reads (itself and its descendants) be read now? *)
Deep(KIDS, f, ns) == \A i \in 1..Len(ns) : f.disk[ns[i]] # BAD /\ Deep(KIDS, f, KIDS[ns[i]])

------------------------------------------------------------------------------
RECURSIVE SumKid(_, _)
CountOf(kids, n) == IF \E i \in 1..Len(kids) : kids[i][1] = n
                    THEN kids[CHOOSE i \in 1..Len(kids) : kids[i][1] = n][2] ELSE 0
SumKid(ent, n) == IF ent = <<>> THEN 0 ELSE CountOf(Head(ent).kids, n) + SumKid(Tail(ent), n)
Held(f, n) == SumKid(f.ent, n)

OneEach(f) == \A i, j \in 1..Len(f.ent) : i # j => f.ent[i].name # f.ent[j].name /\ f.ent[i].obj # f.ent[j].obj
Alive(f) == \A i \in 1..Len(f.ent) : f.ent[i].ref >= 1 /\ f.ent[i].obj \notin f.dead
=============================================================================

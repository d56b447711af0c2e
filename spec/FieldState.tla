----------------------------- MODULE FieldState -----------------------------
(* Fields whose values are read when they are first needed.
   There is one file, whose content is its version number v.  Arrays in memory live in a heap (sequence of contents);
   an address of 0 means "none".  A field is
     src   address its values come from, 0: the file        cache  address of the values it has loaded
     par   the field it is another centering of (0: none)     tok    who agrees about where the values come from
     cp    loading copies        tr  loading rearranges (so the loaded values are a copy)
     lay   layout asked for ("" any), slay  layout of the source *)
EXTENDS Integers, Sequences, FiniteSets

Agree(s, i) == s.f[i].par # 0 /\ s.f[s.f[i].par].tok = s.f[i].tok
(* values already loaded: its own, or those of the field it is another centering of *)
Have(s, i) == IF s.f[i].cache # 0 THEN s.f[i].cache ELSE IF Agree(s, i) THEN s.f[s.f[i].par].cache ELSE 0
Val(s, i) == IF Have(s, i) # 0 THEN s.heap[Have(s, i)] ELSE IF s.f[i].src = 0 THEN s.v ELSE s.heap[s.f[i].src]
Lay(fd) == IF fd.lay # "" THEN fd.lay ELSE fd.slay
Aliases(fd) == ~fd.cp /\ ~fd.tr /\ Lay(fd) = fd.slay
Loaded(s, i) == s.f[i].cache # 0

SetCache(s, i, a) ==
    LET p == s.f[i].par
        t == [s EXCEPT !.f[i].cache = a]
    IN  IF Agree(s, i) THEN [t EXCEPT !.f[p].cache = a] ELSE t
(* values are read at most once until they are cleared *)
Load(s, i) ==
    LET fd == s.f[i]
    IN  IF fd.cache # 0 THEN s
        ELSE IF Have(s, i) # 0 THEN [s EXCEPT !.f[i].cache = Have(s, i)]
        ELSE IF fd.src = 0 THEN SetCache([s EXCEPT !.heap = Append(@, s.v), !.reads = @ + 1], i, Len(s.heap) + 1)
        ELSE IF Aliases(fd) THEN SetCache(s, i, fd.src)
        ELSE SetCache([s EXCEPT !.heap = Append(@, s.heap[fd.src])], i, Len(s.heap) + 1)
Clear(s, i) == SetCache(s, i, 0)
Bump(s) == [s EXCEPT !.v = @ + 1]
Write(s, i, c) == LET t == Load(s, i) IN [t EXCEPT !.heap[t.f[i].cache] = c]
(* from now on the values are those it has *)
Forget(s, i) ==
    LET t == Load(s, i)
    IN  [t EXCEPT !.f[i].src = t.f[i].cache, !.f[i].tr = FALSE, !.f[i].slay = Lay(t.f[i]), !.f[i].tok = s.nt, !.nt = @ + 1]
Assign(s, i, c, lay) ==
    [s EXCEPT !.heap = Append(@, c), !.f[i].src = Len(s.heap) + 1, !.f[i].cache = 0, !.f[i].tr = FALSE, !.f[i].slay = lay,
              !.f[i].tok = s.nt, !.nt = @ + 1]
SetLay(s, i, l) ==
    IF Lay(s.f[i]) = l THEN [s EXCEPT !.f[i].lay = l]
    ELSE LET t == IF Loaded(s, i) THEN [s EXCEPT !.f[i].cache = 0] ELSE s
         IN  [t EXCEPT !.f[i].lay = l, !.f[i].tok = s.nt, !.nt = @ + 1]
(* a shell of the same field; a loaded field is its own shell, unless another one is asked for *)
Shell(s, i, force) ==
    IF Loaded(s, i) /\ ~force THEN s
    ELSE [s EXCEPT !.f = Append(@, [s.f[i] EXCEPT !.cache = 0, !.par = 0, !.tok = s.nt]), !.nt = @ + 1]
(* the same values at the centers of other cells *)
Recenter(s, i) == [s EXCEPT !.f = Append(@, [s.f[i] EXCEPT !.par = i])]
(* more axes of length one: shares what is loaded *)
Expand(s, i) ==
    IF Loaded(s, i)
    THEN [s EXCEPT !.f = Append(@, [src |-> s.f[i].cache, cache |-> 0, par |-> 0, cp |-> FALSE, tr |-> FALSE, tok |-> s.nt,
                                    lay |-> "", slay |-> Lay(s.f[i])]), !.nt = @ + 1]
    ELSE Shell(s, i, TRUE)
(* an independent field with the same values *)
Rewrap(s, i) ==
    LET t == Load(s, i)
        a == Len(t.heap) + 1
    IN  [t EXCEPT !.heap = Append(@, t.heap[t.f[i].cache]), !.nt = @ + 1,
                  !.f = Append(@, [src |-> a, cache |-> a, par |-> 0, cp |-> TRUE, tr |-> FALSE, tok |-> s.nt, lay |-> "", slay |-> Lay(t.f[i])])]
=============================================================================

---------------------------- MODULE FileNamesMC ----------------------------
(* The rules of FileNames over every small folder and pattern *)
EXTENDS FileNames, TLC
CONSTANTS MaxLen, Vals

Chars == {46, 48, 49, 97}
Texts == UNION {[1..n -> Chars] : n \in 0..MaxLen}
Elems == {<<-1>>, <<-2>>, <<46>>, <<48>>, <<97>>, <<48, 49>>}
Pats == UNION {[1..n -> Elems] : n \in 0..3}

VARIABLES mode, text, pat, vals, sel, fs
vars == <<mode, text, pat, vals, sel, fs>>

Seqs == UNION {[1..n -> Vals] : n \in 0..3}
Ends == {<<"n">>} \cup {<<"i", k>> : k \in {-4, -1, 0, 1, 2, 3}} \cup {<<"v", v>> : v \in {-50, 50, 100, 150, 900}}
Sels == {<<"i", k>> : k \in -4..3} \cup {<<"v", v>> : v \in {0, 149, 150, 151, 900}}
        \cup {<<"s", a, b, st>> : a \in Ends, b \in Ends, st \in {1, 2, -1, -2}}
(* names  a.<number>.b *)
Digits(v) == LET q == v \div 100 IN IF q < 10 THEN <<48 + q>> ELSE <<48 + q \div 10, 48 + (q % 10)>>
NameOf(v) == <<97, 46>> \o Digits(v) \o <<46, 98>>
Pre == <<<<97>>, <<46>>>>
Suf == <<<<46>>, <<98>>>>

Files == [kind : {"", "3d"}, nd : {0, 6}, ext : {"xdmf", "txt", "ath.xdmf"}, gk : {FALSE}, fd : {FALSE}, run : {"r", "s"}]
Init ==
    \/ /\ mode = "glob0" /\ text = <<>> /\ pat \in Pats /\ vals = <<>> /\ sel = <<>> /\ fs = <<>>
    \/ /\ mode = "slice0" /\ text = <<>> /\ pat = <<>> /\ vals \in Seqs /\ sel = <<>> /\ fs = <<>>
    \/ /\ mode = "open0" /\ text = <<>> /\ pat = <<>> /\ vals = <<>> /\ sel = <<>> /\ fs \in [1..1 -> Files]
Next ==
    \/ mode = "glob0" /\ mode' = "glob" /\ text' \in Texts /\ UNCHANGED <<pat, vals, sel, fs>>
    \/ mode = "slice0" /\ mode' = "slice" /\ sel' \in Sels /\ UNCHANGED <<text, pat, vals, fs>>
    \/ mode = "open0" /\ mode' = "open" /\ (\E more \in [1..2 -> Files] : fs' = fs \o more) /\ UNCHANGED <<text, pat, vals, sel>>
Spec == Init /\ [][Next]_vars

(* a * may be nothing, one character or more; ? is one; a name without wildcards is itself *)
GlobLaws == mode = "glob" =>
    /\ Glob(<<<<-1>>>>, text)
    /\ Glob([k \in 1..Len(text) |-> <<text[k]>>], text)
    /\ (Glob(pat, text) /\ \A k \in 1..Len(pat) : pat[k] # <<-1>>) => Len(text) = Len(pat)
    /\ Glob(pat, text) => Glob(<<<<-1>>>> \o pat, text)
    /\ Glob(pat \o <<<<-2>>>>, text) = (text # <<>> /\ Glob(pat, SubSeq(text, 1, Len(text) - 1)))
    /\ Glob(pat, text) => <<>> \in Captures(pat, <<>>, text)
    /\ \A c \in Captures(<<>>, pat, text) : \E k \in 0..Len(text) : c = SubSeq(text, 1, k) /\ Glob(pat, SubSeq(text, k + 1, Len(text)))
(* numbers *)
NumLaws == mode = "glob" =>
    /\ IsNumber(text) => /\ (Hundredths(<<45>> \o text) = -Hundredths(text))
                         /\ Hundredths(<<48>> \o text) = Hundredths(text)
    /\ (IsNumber(text) /\ Dots(text) = {}) => Hundredths(text \o <<46, 48>>) = Hundredths(text)
    /\ (\A k \in 1..Len(text) : text[k] = 97) => ~IsNumber(text)

Names == [k \in 1..Len(vals) |-> NameOf(vals[k])]
DistinctVals == \A i \in 1..Len(vals) : \A j \in 1..Len(vals) : vals[i] = vals[j] => i = j
Up(q) == \A k \in 1..(Len(q) - 1) : q[k] <= q[k + 1]
SliceLaws == (mode = "slice" /\ DistinctVals) =>
    LET want == NumbersMeant(Names, Pre, Suf, sel)
    IN  /\ ~Ambiguous(Names, Pre, Suf)
        /\ DOMAIN ValueOf(Names, Pre, Suf) = 1..Len(vals)
        /\ \A k \in 1..Len(vals) : ValueOf(Names, Pre, Suf)[k] = vals[k]
        /\ \A q \in want : \A i \in 1..Len(q) : \E k \in 1..Len(vals) : vals[k] = q[i]
        /\ sel[1] = "s" => /\ Cardinality(want) = 1
                           /\ \A q \in want : IF sel[4] > 0 THEN Up(q) ELSE Up([k \in 1..Len(q) |-> q[Len(q) + 1 - k]])
        /\ (sel[1] = "s" /\ sel[4] = 1) =>
              \A q \in want : \A k \in 1..Len(vals) :
                  ((sel[2][1] = "v" => vals[k] >= sel[2][2]) /\ (sel[3][1] = "v" => vals[k] <= sel[3][2])
                   /\ sel[2][1] # "i" /\ sel[3][1] # "i") <=> (\E i \in 1..Len(q) : q[i] = vals[k] /\ sel[2][1] # "i" /\ sel[3][1] # "i")
        /\ (sel[1] = "v") => (want = {} <=> Len(vals) = 0)

(* opening: every file is in what is opened, once, but for files of a whole run beside its steps *)
Fs == [k \in 1..3 |-> [kind |-> fs[k].kind, nd |-> fs[k].nd, ext |-> fs[k].ext, gk |-> FALSE, fd |-> FALSE, run |-> fs[k].run,
                       t |-> 10 * k, mark |-> k]]
Marks(q) == {q[i][2] : i \in 1..Len(q)}
OpenLaws == mode = "open" =>
    LET o == Opened(Fs, 1..3, "auto")
        seen == UNION {Marks(x[2]) : x \in o}
    IN  /\ CanOpen(Fs, 1..3, "auto")
        /\ \A x \in o : Len(x[2]) = Cardinality(Marks(x[2])) /\ Up([i \in 1..Len(x[2]) |-> x[2][i][1]])
        /\ \A x \in o : \A y \in o : x # y => Marks(x[2]) \cap Marks(y[2]) = {}
        /\ \A k \in 1..3 : Fs[k].nd > 0 => k \in seen
        /\ \A k \in 1..3 : (k \notin seen) => (Fs[k].nd = 0 /\ \E j \in 1..3 : j # k /\ Fs[j].nd > 0 /\ Fs[j].run = Fs[k].run)
        /\ \A x \in o : (x[1] \notin InSeries) => Len(x[2]) = 1
        /\ \A k \in 1..3 : Opened(Fs, {k}, "auto") = {<<Type(Fs[k], "none"), <<<<10 * k, k>>>>>>}
        /\ Opened(Fs, 1..3, "FileXDMF") = {<<"FileXDMF", <<<<10 * k, k>>>>>> : k \in 1..3}
=============================================================================

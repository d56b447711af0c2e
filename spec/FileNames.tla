----------------------------- MODULE FileNames -----------------------------
(* Which files a name with wildcards and a slice means, which kind of file a name says it is, and which files are
   opened together as the steps of one series.

   A name is a sequence of character codes.  A pattern is a sequence of elements: <<-1>> is * , <<-2>> is ? , <<c>> the
   character c, and a longer sequence of characters a set of which one must be there.  A slice stands between two
   patterns, for a number: the files are put in the order of that number and the slice picks from them, by position or
   by value. *)
EXTENDS Select

(* ------------------------------------------------------------------ wildcards *)
ElemOk(e, ch) == IF e = <<-2>> THEN TRUE ELSE \E k \in 1..Len(e) : e[k] = ch
RECURSIVE GlobFrom(_, _, _, _)
GlobFrom(p, i, t, j) ==
    IF i > Len(p) THEN j > Len(t)
    ELSE IF p[i] = <<-1>> THEN \E k \in j..(Len(t) + 1) : GlobFrom(p, i + 1, t, k)
    ELSE j <= Len(t) /\ ElemOk(p[i], t[j]) /\ GlobFrom(p, i + 1, t, j + 1)
Glob(p, t) == GlobFrom(p, 1, t, 1)

(* ------------------------------------------------------------------ numbers in names, in hundredths *)
Digit(ch) == ch >= 48 /\ ch <= 57
DOT == 46
MINUS == 45
RECURSIVE NumOf(_)
NumOf(t) == IF t = <<>> THEN 0 ELSE 10 * NumOf(SubSeq(t, 1, Len(t) - 1)) + (t[Len(t)] - 48)
Unsigned(t) == IF Len(t) > 0 /\ t[1] = MINUS THEN Tail(t) ELSE t
Dots(t) == {k \in 1..Len(t) : t[k] = DOT}
IsNumber(t) ==
    LET u == Unsigned(t)
    IN  /\ \A k \in 1..Len(u) : Digit(u[k]) \/ u[k] = DOT
        /\ \E k \in 1..Len(u) : Digit(u[k])
        /\ Cardinality(Dots(u)) <= 1
Pad2(t) == CASE Len(t) = 0 -> <<48, 48>> [] Len(t) = 1 -> t \o <<48>> [] OTHER -> SubSeq(t, 1, 2)
Hundredths(t) ==
    LET u == Unsigned(t)
        d == IF Dots(u) = {} THEN Len(u) + 1 ELSE SetMin(Dots(u))
        v == 100 * NumOf(SubSeq(u, 1, d - 1)) + NumOf(Pad2(SubSeq(u, d + 1, Len(u))))
    IN  IF u = t THEN v ELSE -v

(* what may stand at the place of the slice, for the name t *)
Captures(pre, suf, t) ==
    {SubSeq(t, a, b) : <<a, b>> \in {<<x, y>> \in (1..(Len(t) + 1)) \X (0..Len(t)) :
        y >= x - 1 /\ Glob(pre, SubSeq(t, 1, x - 1)) /\ Glob(suf, SubSeq(t, y + 1, Len(t)))}}

(* -------------------------------------------------------------------- slices
   names: sequence of names in the folder.  Answers are sequences of indices into names; files with the same number may
   come in any order, so answers are told by number: NumbersMeant is the set of admissible sequences of numbers, and
   each of the files must be one of Numbered. *)
Matching(names, p) == {i \in 1..Len(names) : Glob(p, names[i])}
Star(pre, suf) == pre \o <<<<-1>>>> \o suf
Ambiguous(names, pre, suf) ==
    \E i \in Matching(names, Star(pre, suf)) : Cardinality(Captures(pre, suf, names[i])) > 1
NumberAt(names, pre, suf, i) == CHOOSE c \in Captures(pre, suf, names[i]) : TRUE
Numbered(names, pre, suf) == {i \in Matching(names, Star(pre, suf)) : IsNumber(NumberAt(names, pre, suf, i))}
RECURSIVE Insert(_, _)
Insert(q, x) == IF q = <<>> THEN <<x>> ELSE IF x <= Head(q) THEN <<x>> \o q ELSE <<Head(q)>> \o Insert(Tail(q), x)
RECURSIVE SortBag(_, _)
SortBag(idx, f) == IF idx = {} THEN <<>>
                   ELSE LET i == CHOOSE i \in idx : TRUE IN Insert(SortBag(idx \ {i}, f), f[i])
ValueOf(names, pre, suf) == [i \in Numbered(names, pre, suf) |-> Hundredths(NumberAt(names, pre, suf, i))]
NumbersMeant(names, pre, suf, sel) ==
    LET v == ValueOf(names, pre, suf)
        c == SortBag(DOMAIN v, v)
    IN  {[k \in 1..Len(a) |-> c[a[k] + 1]] : a \in Answers(c, sel, TRUE, FALSE)}

(* ------------------------------------------------------------ kinds of files
   a name by its parts: run [.kind] [.number] [.ext], or run_q_number.h5 (gk); nd = number of digits (0: no number);
   fd: the run's name ends with fd *)
GGCM == {"3d", "3df", "px_0", "py_12", "pz_0"}
Flat == {"3df", "px_0", "py_12", "pz_0"}
IsXdmf(x) == x = "xdmf" \/ x = "xmf"
(* the types that recognise a name, most particular first *)
Types(n) ==
    CASE n.gk -> <<"GkeyllFile", "FileHDF5">>
      [] n.ext = "ath.xdmf" /\ n.nd > 0 -> <<"AthenaFileXDMF", "FileXDMF">>
      [] n.ext = "ath.xdmf" -> <<"FileXDMF">>
      [] IsXdmf(n.ext) /\ n.kind \in GGCM /\ n.nd \in {0, 6} -> <<"GGCMFileXDMF", "FileXDMF">>
      [] IsXdmf(n.ext) /\ n.kind = "iof" /\ n.nd \in {0, 6} -> <<"GGCMIonoFileXDMF", "FileXDMF">>
      [] IsXdmf(n.ext) /\ n.kind \in {"mp_info", "topo"} /\ n.nd \in {0, 6} -> <<"GGCMAncFileXDMF", "FileXDMF">>
      [] n.ext = "xdmf" /\ n.kind = "" /\ n.fd /\ n.nd \in {0, 6} -> <<"PscFieldFile", "FileXDMF">>
      [] IsXdmf(n.ext) -> <<"FileXDMF">>
      [] n.ext = "h5" -> <<"FileHDF5">>
      [] n.ext = "npz" -> <<"FileNumpyNPZ">>
      [] n.ext = "txt" \/ n.ext = "asc" -> <<"FileASCII">>
      [] n.ext = "nda" -> <<"FileNDASCII">>
      [] n.ext = "vpc" -> <<"VPIC_File">>
      [] n.ext = "tab" /\ n.nd = 4 -> <<"AthenaTabFile">>
      [] n.ext = "bin" /\ n.nd > 0 -> <<"AthenaBinFile">>
      [] n.ext = "hst" -> <<"AthenaHstFile">>
      [] n.ext = "" /\ n.kind \in Flat /\ n.nd = 6 -> <<"GGCMFileJrrleMHD">>
      [] n.ext = "" /\ n.kind = "iof" /\ n.nd = 6 -> <<"GGCMFileJrrleIono">>
      [] n.ext = "b" /\ n.kind \in Flat /\ n.nd = 6 -> <<"GGCMFileFortbinMHD">>
      [] n.ext = "b" /\ n.kind = "iof" /\ n.nd = 6 -> <<"GGCMFileFortbinIono">>
      [] OTHER -> <<>>
(* names of types in which a wish is found *)
Wish == [none |-> {}, xdmf |-> {"AthenaFileXDMF", "GGCMFileXDMF", "GGCMIonoFileXDMF", "GGCMAncFileXDMF", "FileXDMF"},
         HDF5 |-> {"FileHDF5"}, athena |-> {"AthenaFileXDMF", "AthenaTabFile", "AthenaBinFile", "AthenaHstFile"},
         gkeyll |-> {"GkeyllFile"}, psc |-> {"PscFieldFile"}, nosuch |-> {}]
Type(n, wish) ==
    LET t == Types(n)
        w == {k \in 1..Len(t) : t[k] \in Wish[wish]}
    IN  IF t = <<>> THEN "none" ELSE IF w = {} THEN t[1] ELSE t[SetMin(w)]

(* types by their own name: text, and names of types, as characters without blanks, marks, case or the word file *)
Within(a, b) == \E k \in 0..(Len(b) - Len(a)) : SubSeq(b, k + 1, k + Len(a)) = a
ByName(text, types) ==
    LET own == {i \in 1..Len(types) : types[i].c = text}
        part == {i \in 1..Len(types) : Len(text) <= Len(types[i].c) /\ Within(text, types[i].c)}
    IN  IF own # {} THEN {types[i].n : i \in own} ELSE IF part # {} THEN {types[i].n : i \in part} ELSE {"none"}

(* ------------------------------------------------------------------ opening
   fs: sequence of files [kind, nd, num, ext, gk, fd, run, t, mark]; picked: sequence of indices into fs *)
InSeries == {"GGCMFileXDMF", "GGCMIonoFileXDMF", "GGCMAncFileXDMF", "AthenaFileXDMF", "AthenaTabFile"}
TypeOf(n, ft) == IF ft = "auto" THEN Type(n, "none") ELSE ft
Key(n, ft) == LET ty == TypeOf(n, ft)
              IN  IF ty \notin InSeries THEN <<ty>>
                  ELSE IF ty \in {"AthenaFileXDMF", "AthenaTabFile"} THEN <<ty, n.run, n.kind>> ELSE <<ty, n.run, n.kind>>
RECURSIVE ByTime(_, _)
ByTime(idx, fs) ==
    IF idx = {} THEN <<>>
    ELSE LET i == CHOOSE i \in idx : \A j \in idx : fs[i].t <= fs[j].t
         IN  <<<<fs[i].t, fs[i].mark>>>> \o ByTime(idx \ {i}, fs)
(* a file for the whole run is left out where the run's steps are there *)
Members(idx, fs) == IF \E i \in idx : fs[i].nd > 0 THEN {i \in idx : fs[i].nd > 0} ELSE idx
(* what is opened: a set of <<type, steps>> *)
Opened(fs, picked, ft) ==
    LET alone == {i \in picked : TypeOf(fs[i], ft) \notin InSeries}
        keys == {Key(fs[i], ft) : i \in picked \ alone}
    IN  {<<TypeOf(fs[i], ft), ByTime({i}, fs)>> : i \in alone}
          \cup {<<k[1], ByTime(Members({i \in picked : Key(fs[i], ft) = k}, fs), fs)>> : k \in keys}
CanOpen(fs, picked, ft) == \A i \in picked : TypeOf(fs[i], ft) # "none"
=============================================================================

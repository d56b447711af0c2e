------------------------------ MODULE Settings ------------------------------
(* What a settings text says, and what loading a settings file does.

   A text is a sequence of character codes.  It is JSON, but for comments (from # or // to the end of the line, outside of
   strings) and for a comma allowed after the last item of a list or dictionary.  Its meaning is one of
     <<"s", codes>> text   <<"w", codes>> a whole number, true, false or null
     <<"l", items>> list   <<"d", <<key codes, value>> pairs>> dictionary: the last value given for a key holds
   or <<>>: it says nothing, and is refused. *)
EXTENDS Integers, Sequences, FiniteSets

NL == 10
QUOTE == 34
HASH == 35
COMMA == 44
SLASH == 47
COLON == 58
LBR == 91
BACK == 92
RBR == 93
LCU == 123
RCU == 125
Blank == {9, 10, 13, 32}
Marks == {COMMA, COLON, LBR, RBR, LCU, RCU}

(* ----------------------------------------------------------------- tokens *)
At(t, i) == IF i <= Len(t) THEN t[i] ELSE 0
Comment(t, i) == At(t, i) = HASH \/ (At(t, i) = SLASH /\ At(t, i + 1) = SLASH)
RECURSIVE LineEnd(_, _)
LineEnd(t, i) == IF i > Len(t) THEN i ELSE IF t[i] = NL THEN i ELSE LineEnd(t, i + 1)
(* the character a backslash stands for with the next one *)
Escaped(c) == CASE c = QUOTE -> QUOTE [] c = BACK -> BACK [] c = SLASH -> SLASH [] c = 110 -> 10 [] c = 116 -> 9 [] c = 98 -> 8
                [] c = 102 -> 12 [] c = 114 -> 13 [] OTHER -> 0
(* the text of a string which begins before i: [ok, next, v] *)
RECURSIVE Str(_, _, _)
Str(t, i, acc) ==
    IF i > Len(t) THEN [ok |-> FALSE, next |-> i, v |-> acc]
    ELSE IF t[i] = QUOTE THEN [ok |-> TRUE, next |-> i + 1, v |-> acc]
    ELSE IF t[i] < 32 THEN [ok |-> FALSE, next |-> i, v |-> acc]
    ELSE IF t[i] = BACK THEN IF Escaped(At(t, i + 1)) = 0 THEN [ok |-> FALSE, next |-> i, v |-> acc]
                             ELSE Str(t, i + 2, Append(acc, Escaped(t[i + 1])))
    ELSE Str(t, i + 1, Append(acc, t[i]))
RECURSIVE WordEnd(_, _)
WordEnd(t, i) == IF i > Len(t) THEN i
                 ELSE IF t[i] \in Blank \cup Marks \cup {QUOTE} \/ Comment(t, i) THEN i ELSE WordEnd(t, i + 1)
Digit(c) == c >= 48 /\ c <= 57
Whole(w) == LET d == IF w[1] = 45 THEN Tail(w) ELSE w
            IN  Len(d) > 0 /\ (\A k \in 1..Len(d) : Digit(d[k])) /\ (Len(d) = 1 \/ d[1] # 48)
WordOk(w) == w \in {<<116, 114, 117, 101>>, <<102, 97, 108, 115, 101>>, <<110, 117, 108, 108>>} \/ Whole(w)
BADT == << <<"bad">> >>
RECURSIVE Lex(_, _, _)
Lex(t, i, acc) ==
    IF i > Len(t) THEN acc
    ELSE LET c == t[i] IN
         IF c \in Blank THEN Lex(t, i + 1, acc)
         ELSE IF Comment(t, i) THEN Lex(t, LineEnd(t, i), acc)
         ELSE IF c = QUOTE THEN LET q == Str(t, i + 1, <<>>) IN IF q.ok THEN Lex(t, q.next, Append(acc, <<"s", q.v>>)) ELSE BADT
         ELSE IF c \in Marks THEN Lex(t, i + 1, Append(acc, <<"m", c>>))
         ELSE LET n == WordEnd(t, i) IN LET w == SubSeq(t, i, n - 1)
              IN  IF WordOk(w) THEN Lex(t, n, Append(acc, <<"w", w>>)) ELSE BADT

(* ---------------------------------------------------------------- meaning *)
Is(q, i, m) == i <= Len(q) /\ q[i] = <<"m", m>>
NOPE == [ok |-> FALSE, next |-> 0, v |-> <<>>]
Put(d, k, v) == IF \E j \in 1..Len(d) : d[j][1] = k THEN [j \in 1..Len(d) |-> IF d[j][1] = k THEN <<k, v>> ELSE d[j]]
                ELSE Append(d, <<k, v>>)
RECURSIVE Val(_, _)
RECURSIVE List(_, _, _)
RECURSIVE Dict(_, _, _)
Val(q, i) ==
    IF i > Len(q) THEN NOPE
    ELSE IF q[i][1] \in {"s", "w"} THEN [ok |-> TRUE, next |-> i + 1, v |-> q[i]]
    ELSE IF Is(q, i, LBR) THEN List(q, i + 1, <<>>)
    ELSE IF Is(q, i, LCU) THEN Dict(q, i + 1, <<>>)
    ELSE NOPE
List(q, i, acc) ==
    IF Is(q, i, RBR) THEN [ok |-> TRUE, next |-> i + 1, v |-> <<"l", acc>>]
    ELSE LET r == Val(q, i)
         IN  IF ~r.ok THEN NOPE
             ELSE IF Is(q, r.next, COMMA) THEN List(q, r.next + 1, Append(acc, r.v))
             ELSE IF Is(q, r.next, RBR) THEN List(q, r.next, Append(acc, r.v))
             ELSE NOPE
Dict(q, i, acc) ==
    IF Is(q, i, RCU) THEN [ok |-> TRUE, next |-> i + 1, v |-> <<"d", acc>>]
    ELSE IF i > Len(q) \/ ~Is(q, i + 1, COLON) THEN NOPE
    ELSE IF q[i][1] # "s" THEN NOPE
    ELSE LET r == Val(q, i + 2)
         IN  IF ~r.ok THEN NOPE
             ELSE IF Is(q, r.next, COMMA) THEN Dict(q, r.next + 1, Put(acc, q[i][2], r.v))
             ELSE IF Is(q, r.next, RCU) THEN Dict(q, r.next, Put(acc, q[i][2], r.v))
             ELSE NOPE
Tokens(t) == Lex(t, 1, <<>>)
Means(t) == LET q == Tokens(t)
            IN  IF q = BADT THEN <<>>
                ELSE LET r == Val(q, 1) IN IF r.ok /\ r.next = Len(q) + 1 THEN r.v ELSE <<>>
(* a comma where there is no item at all is nobody's business *)
Odd(t) == LET q == Tokens(t)
          IN  \E i \in 1..(Len(q) - 2) : (Is(q, i, LBR) \/ Is(q, i, LCU)) /\ Is(q, i + 1, COMMA)

(* ------------------------------------------------------------ occurrences *)
Here(t, sub, i, n) == i + Len(sub) - 1 <= n /\ SubSeq(t, i, i + Len(sub) - 1) = sub
Starts(t, subs, i, n) == {k \in 1..Len(subs) : Here(t, subs[k], i, n)}
First(S) == CHOOSE x \in S : \A y \in S : x <= y
(* places (from 0) where one of subs is found between positions i and n (from 1), each beginning after the last has ended *)
RECURSIVE Found(_, _, _, _)
Found(t, subs, i, n) ==
    IF i > n THEN <<>>
    ELSE IF Starts(t, subs, i, n) = {} THEN Found(t, subs, i + 1, n)
    ELSE <<i - 1>> \o Found(t, subs, i + Len(subs[First(Starts(t, subs, i, n))]), n)
(* the same from the end: each ends before the last begins *)
RECURSIVE RFound(_, _, _, _, _)
RFound(t, subs, i, k, n) ==
    IF k < i THEN <<>>
    ELSE IF Starts(t, subs, k, n) = {} THEN RFound(t, subs, i, k - 1, n)
    ELSE <<k - 1>> \o RFound(t, subs, i, k - 1, k - 1)

(* ---------------------------------------------------------------- loading
   set: sequence of <<path codes, value>>, for every setting there is and new ones asked for: <<>> while it is not there *)
Known(set, p) == \E j \in 1..Len(set) : set[j][1] = p
RECURSIVE Apply(_, _)
Apply(set, pairs) == IF pairs = <<>> THEN set
                     ELSE LET p == Head(pairs)
                          IN  Apply(IF Known(set, p[1]) THEN Put(set, p[1], p[2]) ELSE set, Tail(pairs))
(* loading a text; others, if no text is there *)
Loads(set, missing, m) ==
    CASE missing -> [ok |-> TRUE, set |-> set]
      [] ~missing /\ m = <<>> -> [ok |-> FALSE, set |-> set]
      [] OTHER -> [ok |-> TRUE, set |-> Apply(set, m[2])]
=============================================================================

----------------------------- MODULE SettingsMC -----------------------------
(* All texts up to MaxN characters, and what is true of their meaning whatever surrounds them. *)
EXTENDS Settings, TLC
CONSTANT MaxN
VARIABLE t
Alphabet == {QUOTE, HASH, SLASH, COMMA, LBR, RBR, BACK, NL, 49}
Init == t = <<>>
Next == \E c \in Alphabet : Len(t) < MaxN /\ t' = Append(t, c)
Spec == Init /\ [][Next]_t
Good == Means(t) # <<>>
(* a comment line changes nothing before or after a text, and neither does a blank *)
Commented == /\ Means(<<HASH, QUOTE, NL>> \o t) = Means(t)
             /\ Means(<<SLASH, SLASH, RBR, NL>> \o t) = Means(t)
             /\ Means(<<32>> \o t) = Means(t)
             /\ Good => /\ Means(t \o <<NL, HASH, QUOTE>>) = Means(t)
                        /\ Means(t \o <<32, SLASH, SLASH, COMMA>>) = Means(t)
(* one comma after the last item changes nothing; two are refused *)
Trailing == Good => /\ Means(<<LBR>> \o t \o <<NL, RBR>>) = <<"l", <<Means(t)>> >>
                    /\ Means(<<LBR>> \o t \o <<NL, COMMA, RBR>>) = <<"l", <<Means(t)>> >>
                    /\ Means(<<LBR>> \o t \o <<NL, COMMA, COMMA, RBR>>) = <<>>
                    /\ Means(<<LBR>> \o t \o <<NL, COMMA>> \o t \o <<NL, RBR>>) = <<"l", <<Means(t), Means(t)>> >>
                    /\ Means(<<LCU, QUOTE, 49, QUOTE, COLON>> \o t \o <<NL, COMMA, RCU>>) = <<"d", << <<<<49>>, Means(t)>> >> >>
(* inside a string nothing is a comment, and no comma is dropped *)
Plain(q) == \A k \in 1..Len(q) : q[k] \notin {QUOTE, BACK, NL}
Kept == Plain(t) => Means(<<QUOTE>> \o t \o <<QUOTE>>) = <<"s", t>>
Order == \A i \in 1..Len(Found(t, <<<<49>>, <<SLASH, SLASH>>>>, 1, Len(t))) :
            LET f == Found(t, <<<<49>>, <<SLASH, SLASH>>>>, 1, Len(t)) IN i > 1 => f[i - 1] < f[i]
(* single characters are found at the same places from either end *)
Rev(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
Both == RFound(t, <<<<49>>, <<RBR>>>>, 1, Len(t), Len(t)) = Rev(Found(t, <<<<49>>, <<RBR>>>>, 1, Len(t)))
Inv == Commented /\ Trailing /\ Kept /\ Order /\ Both
=============================================================================

----------------------------- MODULE TraceBase -----------------------------
(* Judging recorded sessions of the real code.  The trace file (environment variable TRACE) has one session
   per line: [name, init, ev], where ev is the sequence of recorded calls with arguments and results.
   A trace module supplies
       InitSt(init)  the specification's state at the start of a session
       Step(st, e)   [st |-> next state, bad |-> sequence of <<clause, expected>>]
   Verdicts are total: every session is consumed to its end, and each clause the specification does not allow
   is printed as a JSON line. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES s, l, st

Trace == ndJsonDeserialize(IOEnv.TRACE)
NSess == Len(Trace)

Report(ss, ll, b) ==
    PrintT(ToJson([bad |-> TRUE, s |-> ss, l |-> ll, clause |-> b[1], exp |-> b[2]]))

TInit(InitSt(_)) ==
    /\ s \in 1..NSess
    /\ l = 0
    /\ st = InitSt(Trace[s].init)

(* stateful sessions: after a rejected event the rest of that session says nothing, skip it *)
TNext(Step(_, _)) ==
    /\ l < Len(Trace[s].ev)
    /\ s' = s
    /\ LET r == Step(st, Trace[s].ev[l + 1])
           n == Len(Trace[s].ev)
       IN  /\ st' = r.st
           /\ \A i \in 1..Len(r.bad) : Report(s, l + 1, r.bad[i])
           /\ l' = IF r.bad # <<>> THEN n ELSE l + 1
           /\ (l' = n) => PrintT(ToJson([done |-> s]))

(* sessions of independent events: judge them all *)
PNext(Judge(_, _)) ==
    /\ l < Len(Trace[s].ev)
    /\ s' = s
    /\ st' = st
    /\ LET bad == Judge(Trace[s].init, Trace[s].ev[l + 1])
           n == Len(Trace[s].ev)
       IN  /\ \A i \in 1..Len(bad) : Report(s, l + 1, bad[i])
           /\ l' = l + 1
           /\ (l' = n) => PrintT(ToJson([done |-> s]))

(* clause helpers *)
Chk(clause, got, exp) == IF got = exp THEN <<>> ELSE << <<clause, exp>> >>
ChkT(clause, cond) == IF cond THEN <<>> ELSE << <<clause, TRUE>> >>

vars == <<s, l, st>>
=============================================================================

---------------------------- MODULE SettingsTrace ----------------------------
EXTENDS TraceBase, Settings
R(x, bad) == [st |-> x, bad |-> bad]
Same(v) == IF v = <<>> THEN <<"exc">> ELSE <<"ok", v>>
(* a text refused: any ValueError *)
Text(got, m) == IF m = <<>> THEN ChkT("refused", got[1] = "exc" /\ got[2] \in {"ValueError", "JSONDecodeError"})
                ELSE IF got[1] # "ok" THEN << <<"accepted", m>> >> ELSE Chk("meaning", got[2], m)
DoLoad(set, e) ==
    LET m == IF e.mode = "json" THEN Means(e.text) ELSE <<"d", e.pairs>>
        r == Loads(set, e.missing, m)
    IN  R(r.set, (IF r.ok THEN ChkT("loads", e.got[1] = "ok") ELSE ChkT("refused", e.got[1] = "exc"))
                 \o Chk("settings", e.now, r.set))
(* how often each kind of settings is told that it has been touched *)
Step(set, e) ==
    CASE e.op = "loads" -> R(set, IF Odd(e.text) THEN <<>> ELSE Text(e.got, Means(e.text)))
      [] e.op = "again" -> R(set, Chk("same", e.got, <<"ok", e.v>>))
      [] e.op = "find" -> R(set, Chk("found", e.got, IF e.back THEN RFound(e.text, e.subs, e.i, e.n, e.n) ELSE Found(e.text, e.subs, e.i, e.n)))
      [] e.op = "load" -> DoLoad(set, e)
      [] OTHER -> R(set, << <<"unknown", e.op>> >>)
EInit(init) == init.set
Init == TInit(EInit)
Next == TNext(Step)
Spec == Init /\ [][Next]_vars
=============================================================================

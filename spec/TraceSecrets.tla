----------------------------- MODULE TraceSecrets ----------------------------
(***************************************************************************)
(* Recorded representations and log lines of real clients.  A history has  *)
(* the password and key of its client and the texts; no text may show      *)
(* either in any form (Secrets).                                           *)
(* [op |-> "repr" / "log" / "print", what, text]                           *)
(***************************************************************************)
EXTENDS Secrets, Json, IOUtils, TLC

Histories == JsonDeserialize(IOEnv.TRACE).h

VARIABLES tid, l, ns, verdict
vars == <<tid, l, ns, verdict>>

Init == /\ tid \in 1..Len(Histories)
        /\ l = 1
        /\ ns = [pw |-> Needles(Histories[tid].pw), key |-> Needles(Histories[tid].key)]
        /\ verdict = "ok"
Finish(v, n) == PrintT(<<"VERDICT", tid, n, v>>)
Judge(e) == IF Shows(e.text, ns.pw) THEN e.op \o "-shows-password"
            ELSE IF Shows(e.text, ns.key) THEN e.op \o "-shows-key" ELSE "ok"
Next ==
  /\ verdict = "ok"
  /\ IF l > Len(Histories[tid].ev)
     THEN verdict' = "done" /\ Finish("ok", l - 1) /\ UNCHANGED <<tid, l, ns>>
     ELSE LET v == TLCEval(Judge(Histories[tid].ev[l])) IN
          /\ verdict' = v
          /\ l' = l + 1
          /\ UNCHANGED <<tid, ns>>
          /\ (v # "ok" => Finish(v, l))
Spec == Init /\ [][Next]_vars
=============================================================================

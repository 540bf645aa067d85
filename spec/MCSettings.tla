------------------------------- MODULE MCSettings ----------------------------
(***************************************************************************)
(* Settings of a connection: every setting at its boundaries, at most      *)
(* Changes of them away from an ordinary value.  Of the design: whatever   *)
(* passes can be written into a frame and read back from it.  Each set of  *)
(* settings is a test for the real constructors.                           *)
(***************************************************************************)
EXTENDS Settings, Json, TLC
CONSTANTS Changes

Int0(n) == IF n < 0 THEN [t |-> "m", d |-> Trim(LE(-n, 3))] ELSE VInt(LE(n, 3))
Text(n) == VText([i \in 1..n |-> 96 + i])
Key == [i \in 1..16 |-> i * 13]
NoNumber == {VNone, VText(<<49>>)}
Wide == {Int0(n) : n \in {-1, 0, 1, 13, 255, 256, 65535, 65536, 65537, 1000000}} \cup NoNumber
Narrow == {Int0(n) : n \in {-1, 0, 1, 13, 255, 256, 257, 65535}} \cup NoNumber
Ids == {Int0(n) : n \in {-801, -1, 0, 1, 255, 800, 801, 802, 820, 848, 849, 850, 1000, 65536 + 801}} \cup NoNumber
Passwords == {Text(n) : n \in 0..8} \cup {Text(60), VNone, Int0(123456), VText(<<1, 2, 3, 4, 5, 8364>>)}
Values == [ d1 |-> Wide, d2 |-> Narrow, s1 |-> Wide, s2 |-> Narrow, pid |-> Ids, pw |-> Passwords,
            key |-> {<<>>, Key}, kid |-> {0, 1, 7} ]

VARIABLES cfg, n
vars == <<cfg, n>>
Settings0 == cfg
Init == /\ cfg = [d1 |-> Int0(258), d2 |-> Int0(3), s1 |-> Int0(1027), s2 |-> Int0(5),
                  pw |-> Text(6), pid |-> Int0(801), key |-> <<>>, kid |-> 0]
        /\ n = 0
Next == /\ n < Changes
        /\ \E f \in DOMAIN Values : \E v \in Values[f] : cfg[f] # v /\ cfg' = [cfg EXCEPT ![f] = v]
        /\ n' = n + 1
Spec == Init /\ [][Next]_vars

Session0 == [d1 |-> cfg.d1, d2 |-> cfg.d2, s1 |-> cfg.s1, s2 |-> cfg.s2, key |-> cfg.key, kid |-> cfg.kid]
Verdict == SettingsVerdict(Session0, cfg.pw, cfg.pid)
Emitted == PrintT("TEST " \o ToJson(cfg))

Rq == [k |-> "values", pw |-> cfg.pw, a |-> Int0(1), x |-> Int0(1), y |-> Int0(1), tm |-> VNone]
\* A connection that may exist can say who it is and send a request.
Usable ==
  Verdict = "good" =>
    LET s == NewSession(Session0)
        f == [type |-> TRequest, svc |-> SvcValues, d1 |-> Widen(cfg.d1.d, 2), d2 |-> Widen(cfg.d2.d, 1)[1],
              s1 |-> Widen(cfg.s1.d, 2), s2 |-> Widen(cfg.s2.d, 1)[1], data |-> Payload(Rq)]
        g == [f EXCEPT !.data = [i \in 1..Len(@) |-> IF @[i] = Wild THEN 0 ELSE @[i]]] IN
    /\ ~SendFails(s, Rq) /\ ~SendRefused(s, Rq)
    /\ Encrypting(s) \/ WireVerdict(s, Rq, Escape(EncodeFrame(g))) = "ok"
    /\ FrameOf(EncodeFrame(g)) = g
    /\ VInt(f.d1) = cfg.d1 /\ VInt(f.s1) = cfg.s1 /\ VInt(<<f.d2>>) = cfg.d2 /\ VInt(<<f.s2>>) = cfg.s2
\* One that may not exist could not.
Unusable ==
  Verdict = "bad" => \/ \E v \in {cfg.d1, cfg.s1} : ~GoodNumber(v, 2)
                     \/ \E v \in {cfg.d2, cfg.s2} : ~GoodNumber(v, 1)
                     \/ ~GoodPassword(cfg.pw) \/ ~GoodPasswordId(cfg.pid) \/ (cfg.key # <<>> /\ cfg.kid = 0)
=============================================================================

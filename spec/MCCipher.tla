------------------------------- MODULE MCCipher ------------------------------
(* Envelopes: sealing and opening, and opening damaged ones.                *)
EXTENDS Cipher, TLC
CONSTANTS Lengths, Positions
All == 1..100
VARIABLES n, env, what
Key == <<43, 126, 21, 22, 40, 174, 210, 166, 171, 247, 21, 136, 9, 207, 79, 60>>
Other == [Key EXCEPT ![16] = 61]
Kid == 3
P(k) == [i \in 1..k |-> (i * 29 + k) % 256]
Pad(k) == [i \in 1..PadLen(k) |-> (i * 7) % 126]
Init == n \in Lengths /\ env = Seal(Key, Kid, P(n), Pad(n)) /\ what = "none"
Change == \E i \in Positions : i <= Len(env) /\ env' = [env EXCEPT ![i] = @ ^^ 1] /\ what' = "change"
Cut == \E k \in 0..(Len(env) - 1) : env' = Take(env, k) /\ what' = "cut"
Next == what = "none" /\ (Change \/ Cut) /\ n' = n
Spec == Init /\ [][Next]_<<n, env, what>>

Whole == what = "none" => /\ Opened(Key, Kid, env) = [v |-> "ok", data |-> P(n), pad |-> PadLen(n)]
                          /\ Len(env) = 3 + n + PadLen(n) + 2 /\ (Len(env) - 3) % 16 = 0
                          /\ Opened(Other, Kid, env).v # "ok"
                          /\ Opened(Key, 4, env).v = "keyid"
Detected == what # "none" => Opened(Key, Kid, env).v # "ok"
=============================================================================

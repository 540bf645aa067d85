------------------------------- MODULE MCSecrets -----------------------------
(***************************************************************************)
(* The forms of a secret are told apart from texts that do not show it,    *)
(* and found wherever they stand.                                          *)
(***************************************************************************)
EXTENDS Secrets, TLC
VARIABLES s, pre, post
Chars == {13, 27, 34, 92, 65, 141, 233}
Init == /\ s \in [1..3 -> Chars] /\ pre \in {<<>>, <<65>>, <<92>>, <<32, 13>>} /\ post \in {<<>>, <<39>>, <<65, 65>>}
Next == FALSE /\ UNCHANGED <<s, pre, post>>
Spec == Init /\ [][Next]_<<s, pre, post>>
Found == \A p \in Needles(s) : Shows(pre \o p \o post, Needles(s))
Masked == ~Shows(<<60, 83, 69, 67, 82, 69, 84, 62>>, Needles(s))
Apart == \A x \in Chars : x # s[2] => ~Shows(pre \o [s EXCEPT ![2] = x], {s}) \/ pre # <<>>
=============================================================================

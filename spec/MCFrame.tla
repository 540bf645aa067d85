-------------------------------- MODULE MCFrame ------------------------------
(***************************************************************************)
(* Frames under damage: starting from valid frames, every change of one    *)
(* byte (to every value), every removal of a part, every inserted byte and *)
(* every retyping is detected; nothing but the frame itself is accepted.   *)
(***************************************************************************)
EXTENDS Frame, TLC
CONSTANTS Datas, Types0, Svcs, Values
DatasQuick == {<<>>, <<0>>, <<13, 27, 141>>, <<1, 2, 4, 8, 16, 255>>}
DatasDeep == DatasQuick \cup {[i \in 1..k |-> (i * 37) % 256] : k \in {2, 9, 17, 40}}
AllValues == 0..255
VARIABLES frame, bytes, what
vars == <<frame, bytes, what>>

F(t, svc, d) == [type |-> t, svc |-> svc, d1 |-> <<13, 1>>, d2 |-> 27, s1 |-> <<0, 141>>, s2 |-> 2,
                 data |-> d]
Init == /\ \E t \in Types0, svc \in Svcs, d \in Datas : frame = F(t, svc, d)
        /\ bytes = EncodeFrame(frame)
        /\ what = "none"
Change == \E i \in 1..Len(bytes), v \in Values :
            v # bytes[i] /\ bytes' = [bytes EXCEPT ![i] = v] /\ what' = "change"
Cut == \E i \in 0..(Len(bytes) - 1), j \in 1..Len(bytes) :
            i < j /\ bytes' = SubSeq(bytes, 1, i) \o SubSeq(bytes, j + 1, Len(bytes)) /\ what' = "cut"
Insert == \E i \in 0..Len(bytes), v \in {0, 13, 27, 255} :
            bytes' = SubSeq(bytes, 1, i) \o <<v>> \o SubSeq(bytes, i + 1, Len(bytes)) /\ what' = "insert"
Next == what = "none" /\ (Change \/ Cut \/ Insert) /\ UNCHANGED frame
Spec == Init /\ [][Next]_vars

Symmetric == what = "none" => FrameVerdict(bytes, {frame.type}) = "ok" /\ FrameOf(bytes) = frame
OtherKind == what = "none" => \A t \in FrameTypes \ {frame.type} : FrameVerdict(bytes, {t}) # "ok"
Detected == what # "none" => \A t \in FrameTypes : FrameVerdict(bytes, {t}) # "ok"
=============================================================================

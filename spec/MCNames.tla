-------------------------------- MODULE MCNames ------------------------------
(***************************************************************************)
(* The tables of names fit the rest of the specification, and no number    *)
(* has two names.  Each entry is a test.                                   *)
(***************************************************************************)
EXTENDS Names, Call, Frame, Json

VARIABLE at
Init == at \in {<<t, n>> : t \in DOMAIN NameTables, n \in UNION {DOMAIN NameTables[u] : u \in DOMAIN NameTables}}
        /\ at[2] \in DOMAIN NameTables[at[1]]
Next == FALSE /\ UNCHANGED at
Spec == Init /\ [][Next]_at

Numbers(t) == {t[n] : n \in DOMAIN t}
OneName == \A n \in DOMAIN NameTables[at[1]] :
             NameTables[at[1]][n] = NameTables[at[1]][at[2]] => n = at[2]
Fit == /\ Numbers(ServiceNames) = Services
       /\ Numbers(ArchiveNames) = Archives
       /\ Numbers(ProtocolNames) = Protocols
       /\ Numbers(TypeNames) = DOMAIN Types
       /\ RequestServices \subseteq Services /\ SvcCall \in Services
Emitted == PrintT("TEST " \o ToJson([t |-> at[1], n |-> at[2], v |-> NameTables[at[1]][at[2]]]))
=============================================================================

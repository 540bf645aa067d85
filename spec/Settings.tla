-------------------------------- MODULE Settings -----------------------------
(***************************************************************************)
(* What a connection may be set up with.  c is the part of the settings a  *)
(* session works with (addresses, key, key id), pw the password and pid    *)
(* its id.                                                                 *)
(***************************************************************************)
EXTENDS Session

MaxPassword == 6
PasswordIds == 801..849

GoodPasswordId(v) == v.t = "i" /\ Fits(v.d, 2) /\ LEVal(v.d) \in PasswordIds

\* "bad": no connection may come to exist; "good": one must; "free": a
\* password that no request can carry may be refused at once or later.
SettingsVerdict(c, pw, pid) ==
  IF ~GoodConfig(c) \/ ~GoodPasswordId(pid) \/ pw.t # "s" THEN "bad"
  ELSE IF Len(pw.d) > MaxPassword THEN "bad"
  ELSE IF GoodPassword(pw) THEN "good"
  ELSE "free"
=============================================================================

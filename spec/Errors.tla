-------------------------------- MODULE Errors -------------------------------
(***************************************************************************)
(* Exceptions.  The outcome of a failed call is [k |-> "err", mro |-> the  *)
(* names of the exception's class and all its base classes].               *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* Bit 0 first.
ErrorNames == << "WrongPasswordError", "SettingArchiveFull", "SwitchOff", "BlockedBuffer",
                 "DataError", "CipherKeyError", "WrongEncryptionKeysError", "WriteError" >>
DeviceErrors == {ErrorNames[i] : i \in 1..8}
LibraryErrors == DeviceErrors \cup {"LocalElgasProtocolError", "CommunicationError"}

IsErr(o) == o.k = "err"
Classes(o) == {o.mro[i] : i \in 1..Len(o.mro)}
Is(o, name) == IsErr(o) /\ name \in Classes(o)

\* The call failed with this exception (or a special case of it): a user who
\* catches it, or ElgasError, catches this; one who catches another of the
\* library's exceptions does not.
Raised(o, name) ==
  /\ Is(o, name)
  /\ name \in LibraryErrors => "ElgasError" \in Classes(o)
  /\ Classes(o) \cap (LibraryErrors \ {name}) = {}

\* The name by which an exception is to be known.
Kind(o) == IF Classes(o) \cap LibraryErrors = {} THEN o.mro[1]
           ELSE CHOOSE n \in Classes(o) \cap LibraryErrors : TRUE

\* The call failed with any ordinary error that is not a device error.
RaisedSomething(o) == IsErr(o) /\ Classes(o) \cap DeviceErrors = {}
ValueErr(o) == Is(o, "ValueError")
=============================================================================

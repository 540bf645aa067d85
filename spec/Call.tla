--------------------------------- MODULE Call --------------------------------
(***************************************************************************)
(* The call (registration) message a device sends when it has woken up.    *)
(* Same kinds of fields as in Layouts, and                                 *)
(*   "bytes" raw bytes     "bcd" decimal digits as text without leading    *)
(*   zeros                 "dec" little-endian number as decimal text      *)
(*   "sec"   seconds since 2000-01-01                                      *)
(***************************************************************************)
EXTENDS Layouts

Secs(n) == Fd(n, "sec", 4)
CallLayout ==
  << Skip(2), U("version", 1), Fd("guid", "bytes", 16), Text("station_id", 17),
     Fd("sim_card_id", "bcd", 10), Fd("modem_id", "bcd", 8), U("protocol", 1),
     U("address_1", 2), U("address_2", 1), U("signal_strength", 1), U("connections", 4),
     Secs("last_connection_time"), U("connection_errors", 4), Secs("last_connection_error_time"),
     U("resets", 4), Secs("last_reset_time"), U("tcp_data", 4), U("all_data", 4),
     Fd("serial_number", "dec", 4), Ip("ip_address"), Secs("last_modem_error_time"),
     U("last_modem_error", 1), U("modem_battery_capacity", 2), U("modem_battery_voltage", 2),
     Text("firmware_version", 33) >>

Protocols == 0..3
BcdDigits(b) == FlattenSeq([i \in 1..Len(b) |-> <<b[i] \div 16, b[i] % 16>>])
RECURSIVE NoLeadingZeros(_)
NoLeadingZeros(s) == IF Len(s) > 1 /\ s[1] = 0 THEN NoLeadingZeros(Drop(s, 1)) ELSE s
BcdText(b) == LET s == NoLeadingZeros(BcdDigits(b)) IN [i \in 1..Len(s) |-> 48 + s[i]]

CallStep(b, acc, fd) ==
  LET bytes == SubSeq(b, acc.pos + 1, acc.pos + fd.w)
      out(v) == [acc EXCEPT !.pos = @ + fd.w, !.f = Append(@, Fld(fd.n, v))] IN
  IF acc.v # "ok" THEN acc
  ELSE IF Len(b) - acc.pos < fd.w THEN [acc EXCEPT !.v = "bad"]
  ELSE CASE fd.k = "bytes" -> out(VBytes(bytes))
         [] fd.k = "bcd"   -> IF \E i \in 1..Len(bytes) : ~IsBcd(bytes[i])
                              THEN [acc EXCEPT !.v = "bad"] ELSE out(VText(BcdText(bytes)))
         [] fd.k = "dec"   -> out(VText(Decimal(bytes)))
         [] fd.k = "sec"   -> out(VTime(TimeOfSeconds(Trim(bytes))))
         [] fd.n = "protocol" /\ bytes[1] \notin Protocols -> [acc EXCEPT !.v = "bad"]
         [] OTHER -> FieldStep(b, acc, fd)

DecodeCall(b) ==
  FoldLeft(LAMBDA acc, fd : TLCEval(CallStep(b, acc, fd)),
           [v |-> "ok", pos |-> 0, ctl |-> 0, absent |-> FALSE, f |-> <<>>], CallLayout)
CallLength == FoldLeft(LAMBDA acc, fd : acc + fd.w, 0, CallLayout)
=============================================================================

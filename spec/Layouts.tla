------------------------------- MODULE Layouts -------------------------------
(***************************************************************************)
(* The records of a parameter (configuration) read-out: which field of     *)
(* which width stands where in every object type, and what a stream of     *)
(* records decodes to.                                                     *)
(*                                                                         *)
(* A layout is a sequence of fields [n |-> attribute, k |-> kind,          *)
(* w |-> width or mask]:                                                   *)
(*   "u"  little-endian integer of w bytes                                 *)
(*   "c"  the control byte (attribute bit_control), "cx" one that is not   *)
(*        an attribute itself                                              *)
(*   "b"  flag: the bit w of the control byte                              *)
(*   "m"  bits 4 and 5 of the control byte as a number                     *)
(*   "t"  text of w bytes, "h" w bytes as hexadecimal text, "ip" dotted    *)
(*   "f4", "f8" IEEE 754 numbers                                           *)
(*   "skip" w unused bytes                                                 *)
(*   "rows" as many rows of ten bytes as the byte before says              *)
(*   "opt" from here on the fields are there or not, all together          *)
(***************************************************************************)
EXTENDS Pdu, Text, TLC

Fd(n, k, w) == [n |-> n, k |-> k, w |-> w]
U(n, w) == Fd(n, "u", w)
Text(n, w) == Fd(n, "t", w)
Hex(n, w) == Fd(n, "h", w)
Ip(n) == Fd(n, "ip", 4)
Float(n) == Fd(n, "f4", 4)
Double(n) == Fd(n, "f8", 8)
Skip(w) == Fd("", "skip", w)
Control == Fd("bit_control", "c", 1)
HiddenControl == Fd("", "cx", 1)
Bit(n, mask) == Fd(n, "b", mask)
Bits45(n) == Fd(n, "m", 48)
Rows == Fd("rows", "rows", 10)
Optional == Fd("", "opt", 0)

Addressed == << U("number", 2), U("id", 2), U("address_in_actual_values", 2),
                U("address_in_data_archive_record", 2) >>
BitOrdered == << U("number", 2), U("id", 2), U("bit_order_in_actual_values", 2),
                 U("bit_order_in_data_archive_record", 2),
                 U("bit_order_in_binary_archive_record", 2) >>
Decimals == << Optional, U("decimals", 1) >>
ChangeLog == << Optional, U("action_during_change", 1), Text("text_log_0", 13),
                Text("text_log_1", 13) >>
GasComponents == << "co2", "n2", "combustion_heat", "relative_density", "h2", "h2s", "he", "h2o",
                    "o2", "ar", "co", "c1h4", "c2h6", "c3h8", "ic4h10", "nc4h10", "ic5h12",
                    "nc5h12", "c6h14", "c7h16", "c8h18", "c9h20", "c10h22" >>
GasComposition == [i \in 1..Len(GasComponents) |-> Float("gas_composition." \o GasComponents[i])]

AnalogQuantityLayout ==
    Addressed
    \o << Control, Bit("in_data_archive", 1), Bit("in_daily_archive", 2),
       Bit("in_monthly_archive", 4), Bit("is_metrological_quantity", 16),
       Bit("in_fast_archive_1", 32), Bit("in_fast_archvie_2", 64), Text("name", 23),
       Text("unit", 8), Float("digit"), Float("offset"),
       Float("lower_limit_measuring_range"), Float("upper_limit_measuring_range"),
       U("serial_number_transducer", 4), U("error_bit_order_in_actual_values", 2),
       U("error_bit_order_in_binary_archive", 2), U("error_bit_order_in_data_archive", 2),
       U("address_in_daily_archive_record", 2), U("address_in_monthly_archive_record", 2),
       U("samples_in_fast_archive", 1) >>
    \o Decimals

AnalogStatisticsLayout ==
    Addressed
    \o << Control, Bit("in_data_archive", 1), Bit("in_daily_archive", 2),
       Bit("in_monthly_archive", 4), Bit("is_metrological_quantity", 16),
       Text("name", 23), Text("unit", 8), Float("digit"), Float("offset"),
       U("number_of_primary_quantity", 1), U("statistics_type", 1),
       U("address_in_daily_archive_record", 2), U("address_in_monthly_archive_record", 2) >>
    \o Decimals

BaseTariffCounterLayout ==
    Addressed
    \o << Control, Bit("in_data_archive", 1), Bit("in_daily_archive", 2),
       Bit("in_monthly_archive", 4), Bit("in_factory_archive", 8),
       Bit("is_metrological_quantity", 16), Text("name", 23), Text("unit", 8),
       U("number_of_base_counter", 1), U("tariff", 1),
       U("address_in_daily_archive_record", 2), U("address_in_monthly_archive_record", 2),
       U("address_in_billing_archive_record", 2) >>
    \o Decimals

BinaryLayout ==
    BitOrdered
    \o << Control, Bit("in_binary_archive", 1), Bit("in_data_archive", 2),
       Bit("active_indicator", 64), Text("name", 23),
       U("error_bit_order_in_actual_values", 2),
       U("error_bit_order_in_binary_archive_record", 2),
       U("error_bit_order_in_data_archive_record", 2) >>
    \o ChangeLog

CompressibilityLayout ==
    Addressed
    \o << Control, Bit("in_data_archive", 1), Bit("in_daily_archive", 2),
       Bit("in_monthly_archive", 4), Bit("is_metrological_quantity", 16),
       Text("name", 23), U("number_of_conversion_coefficient", 1),
       U("address_in_daily_archive_record", 2), U("address_in_monthly_archive_record", 2) >>
    \o Decimals

ConversionCoefficientLayout ==
    Addressed
    \o << Control, Bit("in_data_archive", 1), Bit("in_daily_archive", 2),
       Bit("in_monthly_archive", 4), Bit("is_metrological_quantity", 16),
       Text("name", 23), U("number_of_analog_pressure", 1),
       U("number_of_analog_temperature", 1), U("compressibility_calculation_method", 1),
       Float("default_value_pressure"), Float("default_value_temperature"),
       Float("alternate_value_of_compressibility"),
       U("address_in_daily_archive_record", 2), U("address_in_monthly_archive_record", 2) >>
    \o Decimals

CounterLayout ==
    Addressed
    \o << Control, Bit("in_data_archive", 1), Bit("in_daily_archive", 2),
       Bit("in_monthly_archive", 4), Bit("in_factory_archive", 8),
       Bit("is_metrological_quantity", 16), Bit("accept_counting_direction", 64),
       Text("name", 23), Text("unit", 8), Double("digit"),
       U("serial_number_of_gas_meter", 4), U("error_bit_order_in_actual_values", 2),
       U("error_bit_order_in_binary_archive", 2), U("error_bit_order_in_data_archive", 2),
       U("address_in_daily_archive_record", 2), U("address_in_monthly_archive_record", 2),
       U("address_in_billing_archive_record", 2),
       Text("serial_number_of_gas_meter_text", 17) >>
    \o Decimals

CounterStatisticsLayout ==
    Addressed
    \o << Control, Bit("in_data_archive", 1), Bit("in_daily_archive", 2),
       Bit("in_monthly_archive", 4), Bit("is_metrological_quantity", 16),
       Text("name", 23), Text("unit", 8), Double("digit"),
       U("type_of_primary_quantity", 1), U("number_of_primary_quantity", 1),
       U("statistics_type", 1), U("address_in_daily_archive_record", 2),
       U("address_in_monthly_archive_record", 2) >>

DeviceErrorLayout ==
    BitOrdered
    \o << Control, Bit("in_binary_archive", 1), Bit("in_data_archive", 2), Text("name", 23) >>
    \o ChangeLog

DiagnosticsLayout ==
    Addressed
    \o << Control, Bit("in_data_archive", 1), Bit("in_daily_archive", 2),
       Bit("in_monthly_archive", 4), Bit("in_factory_archive", 8), Text("name", 23),
       U("address_in_daily_archive_record", 2), U("address_in_monthly_archive_record", 2),
       U("mask_1_of_status_archive", 4), U("mask_2_of_status_archive", 4),
       U("mask_1_of_alarm", 4), U("mask_2_of_alarm", 4),
       U("mask_1_of_calling_to_dispatching", 4), U("mask_2_of_calling_to_dispatching", 4),
       U("action_during_change", 1) >>

DifferenceCounterLayout ==
    Addressed
    \o << Control, Bit("in_data_archive", 1), Bit("in_daily_archive", 2),
       Bit("in_monthly_archive", 4), Bit("is_double", 8),
       Bit("is_metrological_quantity", 16), Text("name", 23), Text("unit", 8),
       Double("digit"), U("number_of_primary_counter", 1),
       U("address_in_daily_archive_record", 2), U("address_in_monthly_archive_record", 2),
       U("address_in_billing_archive_record", 2) >>
    \o Decimals

EnergyLayout ==
    Addressed
    \o << Control, Bit("in_data_archive", 1), Bit("in_daily_archive", 2),
       Bit("in_monthly_archive", 4), Bit("in_factory_archive", 8),
       Bit("is_metrological_quantity", 16), Text("name", 23), Text("unit", 8),
       U("number_of_standard_counter", 1), U("number_of_calorific_value", 1),
       U("number_of_conversion", 1), U("address_in_daily_archive_record", 2),
       U("address_in_monthly_archive_record", 2),
       U("address_in_billing_archive_record", 2) >>
    \o Decimals

ErrorCounterLayout ==
    Addressed
    \o << Control, Bit("in_data_archive", 1), Bit("in_daily_archive", 2),
       Bit("in_monthly_archive", 4), Bit("in_factory_archive", 8),
       Bit("is_metrological_quantity", 16), Text("name", 23), Text("unit", 8),
       Double("digit"), U("number_of_primary_counter", 1),
       U("address_in_daily_archive_record", 2), U("address_in_monthly_archive_record", 2),
       U("address_in_billing_archive_record", 2) >>
    \o Decimals

ErrorStandardCounterLayout ==
    Addressed
    \o << Control, Bit("in_data_archive", 1), Bit("in_daily_archive", 2),
       Bit("in_monthly_archive", 4), Bit("in_factory_archive", 8),
       Bit("is_metrological_quantity", 16), Text("name", 23), Text("unit", 8),
       U("number_of_standard_counter", 1), U("address_in_daily_archive_record", 2),
       U("address_in_monthly_archive_record", 2),
       U("address_in_billing_archive_record", 2) >>
    \o Decimals

FlowRateLayout ==
    Addressed
    \o << Control, Bit("in_data_archive", 1), Bit("in_daily_archive", 2),
       Bit("in_monthly_archive", 4), Bit("is_metrological_quantity", 16),
       Text("name", 23), Text("unit", 8), U("error_bit_order_in_actual_values", 2),
       U("error_bit_order_in_binary_archive", 2), U("error_bit_order_in_data_archive", 2),
       U("address_in_daily_archive_record", 2), U("address_in_monthly_archive_record", 2) >>
    \o Decimals

ModemLayout ==
    << U("number", 1), U("bit_control_0", 1), Text("title", 7), U("modem_type", 1),
       Text("initialization", 32), Text("call_to_dispatching", 32),
       Text("modem_hang_up", 8), Text("special_initialization", 80),
       Ip("ip_address_for_registration_and_diagnostics"),
       Ip("ip_address_for_calling_to_dispatching"), U("registration_send_period", 1),
       U("authentication_mode", 1), U("port_for_registration", 2),
       U("port_for_calling_to_dispatching", 2), Text("sms_call", 32),
       Text("gprs_user_name", 49), Hex("gprs_password", 33), Ip("ip_address_for_ping"),
       U("ping_period", 2), Text("transition_into_command_mode", 8), Hex("pin", 9),
       Text("owner_sim_number", 17) >>

SetPointLayout ==
    BitOrdered
    \o << Control, Bit("in_binary_archive", 1), Bit("in_data_archive", 2),
       Bit("active_indicator", 64), Text("name", 23), Float("value_of_limit"),
       U("type_of_primary_quantity", 1), U("number_of_primary_quantity", 1) >>
    \o ChangeLog

StandardCounterLayout ==
    Addressed
    \o << Control, Bit("in_data_archive", 1), Bit("in_daily_archive", 2),
       Bit("in_monthly_archive", 4), Bit("in_factory_archive", 8),
       Bit("is_metrological_quantity", 16), Text("name", 23), Text("unit", 8),
       U("number_of_primary_counter", 1), U("number_of_conversion", 1),
       U("address_in_daily_archive_record", 2), U("address_in_monthly_archive_record", 2),
       U("address_in_billing_archive_record", 2) >>
    \o Decimals

StandardFlowRateLayout ==
    Addressed
    \o << Control, Bit("in_data_archive", 1), Bit("in_daily_archive", 2),
       Bit("in_monthly_archive", 4), Bit("is_metrological_quantity", 16),
       Text("name", 23), Text("unit", 8), U("number_of_primary_flow_rate", 1),
       U("number_of_conversion", 1), U("address_in_daily_archive_record", 2),
       U("address_in_monthly_archive_record", 2) >>
    \o Decimals

SumOfAlarmsLayout ==
    BitOrdered
    \o << Control, Bit("in_binary_archive", 1), Bit("in_data_archive", 2), Text("name", 23) >>
    \o ChangeLog

SystemParametersLayout ==
    << U("device_type", 1), U("serial_number", 4), Text("firmware_version", 5),
       U("service_version", 1), U("certification_variant", 1), Text("station_id", 17),
       HiddenControl, Bit("password_for_full_access_active", 1),
       Bit("password_for_reading_is_on", 2), Bit("metrological_switch", 4),
       Bit("user_switch", 8), Bits45("switch_function"), U("parameter_crc", 2),
       U("measuring_period", 1), U("archive_period", 2), Float("base_pressure"),
       Float("base_temperature"), U("compressibility_formula", 1) >>
    \o GasComposition
    \o << U("data_archive_record_length", 2), U("binary_archive_record_length", 2),
       U("daily_archive_record_length", 2), U("monthly_archive_record_length", 2),
       U("instantaneous_values_error_bit_order", 2),
       U("binary_archive_record_error_bit_order", 2),
       U("data_archive_record_error_bit_order", 2), U("optical_port_speed", 1),
       U("optical_port_protocol", 1), U("optical_port_bit_control", 1),
       U("communication_port_0_speed", 1), U("communication_port_0_protocol", 1),
       U("communication_port_0_bit_control", 1), U("communication_port_1_speed", 1),
       U("communication_port_1_protocol", 1), U("communication_port_1_bit_control", 1),
       U("communication_port_2_speed", 1), U("communication_port_2_protocol", 1),
       U("communication_port_2_bit_control", 1), U("gas_day_hour", 1),
       Float("fixed_barometric_pressure"), Float("altitude"), Skip(17),
       U("status_archive_record_length", 2), U("pressure_unit_type", 1),
       Text("pressure_unit_text", 8), U("temperature_unit_type", 1),
       Text("temperature_unit_text", 8), U("altitude_unit_type", 1),
       Text("altitude_unit_text", 8), U("gross_calorific_value_type", 1),
       Text("gross_calorific_value_text", 8), U("dst_region", 1), U("gmt_hour_shift", 1),
       U("billing_archive_record_length", 2), U("conditions_for_combustion_heat", 1),
       U("device_variant", 1), Skip(1), U("bit_control", 1),
       U("places_for_corrected_volume_counters", 1), U("device_features_bits", 1),
       Hex("device_features", 16), Text("version_metrological_part", 5),
       U("metrological_crc", 2), U("metrological_crc_32", 4), U("application_crc_32", 4) >>

TariffCounterLayout ==
    Addressed
    \o << Control, Bit("in_data_archive", 1), Bit("in_daily_archive", 2),
       Bit("in_monthly_archive", 4), Bit("in_factory_archive", 8),
       Bit("is_metrological_quantity", 16), Text("name", 23), Text("unit", 8),
       Double("digit"), U("number_of_primary_counter", 1), U("tariff", 1),
       U("address_in_daily_archive_record", 2), U("address_in_monthly_archive_record", 2),
       U("address_in_billing_archive_record", 2) >>
    \o Decimals

TimeWindowLayout ==
    BitOrdered
    \o << Control, Bit("in_binary_archive", 1), Bit("in_data_archive", 2), Text("name", 23),
       U("rows_in_window", 1), Rows >>
    \o ChangeLog

TimerLayout ==
    Addressed
    \o << Control, Bit("in_data_archive", 1), Bit("in_daily_archive", 2),
       Bit("in_monthly_archive", 4), Bit("is_metrological_quantity", 16),
       Text("name", 23), U("address_in_daily_archive_record", 2),
       U("address_in_monthly_archive_record", 2) >>

Types ==
    0 :> [cls |-> "SystemParameters", layout |-> SystemParametersLayout] @@
   30 :> [cls |-> "AnalogQuantity", layout |-> AnalogQuantityLayout] @@
   31 :> [cls |-> "Binary", layout |-> BinaryLayout] @@
   32 :> [cls |-> "Counter", layout |-> CounterLayout] @@
   33 :> [cls |-> "StandardCounter", layout |-> StandardCounterLayout] @@
   34 :> [cls |-> "FlowRate", layout |-> FlowRateLayout] @@
   35 :> [cls |-> "StandardFlowRate", layout |-> StandardFlowRateLayout] @@
   36 :> [cls |-> "ConversionCoefficient", layout |-> ConversionCoefficientLayout] @@
   45 :> [cls |-> "ErrorCounter", layout |-> ErrorCounterLayout] @@
   46 :> [cls |-> "ErrorStandardCounter", layout |-> ErrorStandardCounterLayout] @@
   47 :> [cls |-> "Compressibility", layout |-> CompressibilityLayout] @@
   48 :> [cls |-> "TimeWindow", layout |-> TimeWindowLayout] @@
   49 :> [cls |-> "CorrectionCounter", layout |-> ErrorCounterLayout] @@
   53 :> [cls |-> "DoubleCounter", layout |-> CounterLayout] @@
   54 :> [cls |-> "DoubleErrorCounter", layout |-> ErrorCounterLayout] @@
   59 :> [cls |-> "Diagnostics", layout |-> DiagnosticsLayout] @@
   61 :> [cls |-> "DeviceError", layout |-> DeviceErrorLayout] @@
   62 :> [cls |-> "SumOfAlarms", layout |-> SumOfAlarmsLayout] @@
   65 :> [cls |-> "Timer", layout |-> TimerLayout] @@
   68 :> [cls |-> "TariffCounter", layout |-> TariffCounterLayout] @@
   69 :> [cls |-> "BaseTariffCounter", layout |-> BaseTariffCounterLayout] @@
   70 :> [cls |-> "SetPoint", layout |-> SetPointLayout] @@
   72 :> [cls |-> "DifferenceCounter", layout |-> DifferenceCounterLayout] @@
   73 :> [cls |-> "DifferenceBaseCounter", layout |-> DifferenceCounterLayout] @@
   74 :> [cls |-> "CompressibilityZ", layout |-> CompressibilityLayout] @@
   75 :> [cls |-> "CompressibilityZBase", layout |-> CompressibilityLayout] @@
   77 :> [cls |-> "Energy", layout |-> EnergyLayout] @@
   78 :> [cls |-> "ErrorEnergy", layout |-> EnergyLayout] @@
   79 :> [cls |-> "DoubleTariffCounter", layout |-> TariffCounterLayout] @@
   80 :> [cls |-> "AnalogStatistics", layout |-> AnalogStatisticsLayout] @@
   81 :> [cls |-> "CounterStatistics", layout |-> CounterStatisticsLayout] @@
   82 :> [cls |-> "StandardCounterStatistics", layout |-> CounterStatisticsLayout] @@
   83 :> [cls |-> "Statistics", layout |-> AnalogStatisticsLayout] @@
   84 :> [cls |-> "AnalogTimeStatistics", layout |-> AnalogStatisticsLayout] @@
   85 :> [cls |-> "TimeStatistics", layout |-> AnalogStatisticsLayout] @@
  141 :> [cls |-> "Modem", layout |-> ModemLayout]

(***************************************************************************)
(* Decoding of one record body.                                            *)
(* v: "ok"; "bad" when it ends inside a field; "free" when bytes are left  *)
(* over (no device sends such records and nothing is promised about them). *)
(***************************************************************************)
VList(texts) == [t |-> "l", d |-> FlattenSeq([i \in 1..Len(texts) |-> <<Len(texts[i])>> \o texts[i]])]
VFloat(kind, b) == [t |-> kind, d |-> b]

FieldStep(b, acc, fd) ==
  LET left == Len(b) - acc.pos
      bytes == SubSeq(b, acc.pos + 1, acc.pos + fd.w)
      out(v) == [acc EXCEPT !.pos = @ + fd.w, !.f = Append(@, Fld(fd.n, v))]
      flag(v) == [acc EXCEPT !.f = Append(@, Fld(fd.n, VInt(<<v>>)))]
  IN
  IF acc.v # "ok" THEN acc
  ELSE IF fd.k = "opt" THEN [acc EXCEPT !.absent = (left = 0)]
  ELSE IF acc.absent THEN [acc EXCEPT !.f = Append(@, Fld(fd.n, VNone))]
  ELSE IF fd.k = "b" THEN flag(IF (acc.ctl \div fd.w) % 2 = 1 THEN 1 ELSE 0)
  ELSE IF fd.k = "m" THEN flag((acc.ctl \div 16) % 4)
  ELSE IF fd.k = "rows"
    THEN LET n == b[acc.pos] IN
         IF left < n * fd.w THEN [acc EXCEPT !.v = "bad"]
         ELSE [acc EXCEPT !.pos = @ + n * fd.w,
                          !.f = Append(@, Fld(fd.n, VList([i \in 1..n |->
                                 HexText(SubSeq(b, acc.pos + (i - 1) * fd.w + 1, acc.pos + i * fd.w))])))]
  ELSE IF left < fd.w THEN [acc EXCEPT !.v = "bad"]
  ELSE CASE fd.k = "skip" -> [acc EXCEPT !.pos = @ + fd.w]
         [] fd.k = "cx"   -> [acc EXCEPT !.pos = @ + 1, !.ctl = bytes[1]]
         [] fd.k = "c"    -> [out(VInt(bytes)) EXCEPT !.ctl = bytes[1]]
         [] fd.k = "u"    -> out(VInt(bytes))
         [] fd.k = "t"    -> out(VText(PrettyText(bytes)))
         [] fd.k = "h"    -> out(VText(HexText(bytes)))
         [] fd.k = "ip"   -> out(VText(IpText(bytes)))
         [] fd.k \in {"f4", "f8"} -> out(VFloat(fd.k, bytes))

DecodeRecord(layout, b) ==
  LET r == FoldLeft(LAMBDA acc, fd : TLCEval(FieldStep(b, acc, fd)),
                    [v |-> "ok", pos |-> 0, ctl |-> 0, absent |-> FALSE, f |-> <<>>], layout)
  IN IF r.v = "ok" /\ r.pos < Len(b) THEN [r EXCEPT !.v = "free"] ELSE r

\* Shortest and longest body of a record (with no rows).
MinLength(layout) ==
  FoldLeft(LAMBDA acc, fd : IF fd.k \in {"b", "m", "rows", "opt"} \/ acc.opt
                            THEN [acc EXCEPT !.opt = @ \/ fd.k = "opt"]
                            ELSE [acc EXCEPT !.n = @ + fd.w],
           [n |-> 0, opt |-> FALSE], layout).n
MaxLength(layout) ==
  FoldLeft(LAMBDA acc, fd : IF fd.k \in {"b", "m", "rows", "opt"} THEN acc ELSE acc + fd.w, 0, layout)

(***************************************************************************)
(* A stream: records  length(2, counts itself and the type) type body      *)
(***************************************************************************)
RecordHeader == 3
MaxRecord == 65535 - RecordHeader
Record(type, body) == LE(Len(body) + RecordHeader, 2) \o <<type>> \o body

\* The sequence of <<type, body>> of a stream, or <<>> with v "bad".
\* p: where the next record begins.
SplitStep(s, a) ==
  IF a.v # "ok" \/ a.p > Len(s) THEN a
  ELSE IF Len(s) - a.p + 1 < RecordHeader THEN [a EXCEPT !.v = "bad"]
  ELSE LET n == LEVal(<<s[a.p], s[a.p + 1]>>) IN
       IF n < RecordHeader \/ n > Len(s) - a.p + 1 \/ s[a.p + 2] \notin DOMAIN Types THEN [a EXCEPT !.v = "bad"]
       ELSE [v |-> "ok", p |-> a.p + n,
             r |-> Append(a.r, [type |-> s[a.p + 2], body |-> SubSeq(s, a.p + 3, a.p + n - 1)])]
Split(s) == FoldLeft(LAMBDA a, i : TLCEval(SplitStep(s, a)), [v |-> "ok", p |-> 1, r |-> <<>>],
                     [i \in 1..(Len(s) \div RecordHeader + 1) |-> i])

\* What a stream decodes to: objects [cls, f].
DecodeStream(s) ==
  LET p == TLCEval(Split(s)) IN
  IF s = <<>> \/ p.v # "ok" THEN [v |-> "bad", o |-> <<>>]
  ELSE LET d == TLCEval([i \in 1..Len(p.r) |-> DecodeRecord(Types[p.r[i].type].layout, p.r[i].body)])
           all == {d[i].v : i \in 1..Len(d)}
       IN IF "bad" \in all THEN [v |-> "bad", o |-> <<>>]
          ELSE IF "free" \in all THEN [v |-> "free", o |-> <<>>]
          ELSE [v |-> "ok",
                o |-> [i \in 1..Len(d) |-> [cls |-> Types[p.r[i].type].cls, f |-> d[i].f]]]

\* Does a value handed out by the implementation agree with a specified one?
Agrees(want, got) ==
  IF want.t = "f4" THEN got.t = "f" /\ Len(got.d) = 12 /\ SubSeq(got.d, 9, 12) = want.d
  ELSE IF want.t = "f8" THEN got.t = "f" /\ SubSeq(got.d, 1, 8) = want.d
  ELSE got.t = want.t /\ got.d = want.d
AllAgree(want, got) ==
  \A i \in 1..Len(want) : \E j \in 1..Len(got) : got[j].n = want[i].n /\ Agrees(want[i], got[j])
\* Name of the first field that does not agree ("" if all do).
FirstDisagreement(want, got) ==
  LET bad == {i \in 1..Len(want) :
                ~ \E j \in 1..Len(got) : got[j].n = want[i].n /\ Agrees(want[i], got[j])}
  IN IF bad = {} THEN "" ELSE want[CHOOSE i \in bad : \A j \in bad : i <= j].n
=============================================================================

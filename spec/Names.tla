--------------------------------- MODULE Names -------------------------------
(***************************************************************************)
(* The names under which users know the protocol's numbers.                *)
(***************************************************************************)
ArchiveNames == [ EXTREME |-> 0, DATA |-> 1, BINARY |-> 2, DAILY |-> 3, MONTHLY |-> 4, SETTING |-> 5,
              FAST_1 |-> 6, FAST_2 |-> 7, STATUS |-> 8, BILLING |-> 9, GAS_COMPOSITION |-> 10 ]
ServiceNames ==
  [ READ_VALUES |-> 100, WRITE_VALUES |-> 101, SEARCH_ARCHIVE_POINTERS_OLD |-> 103,
    SEARCH_ARCHIVE_POINTERS |-> 123, READ_ARCHIVES_OLD |-> 104, READ_ARCHIVES |-> 124,
    READ_DEVICE_TIME |-> 108, READ_SCADA_PARAMETERS |-> 112, WRITE_DEVICE_TIME |-> 113,
    GROUP_WRITE_VALUES |-> 119, GROUP_READ_VALUES |-> 121, CALL |-> 135,
    READ_ARCHIVES_BY_DATE_OLD |-> 145, READ_ARCHIVES_BY_DATE |-> 125 ]
ProtocolNames == [ ELGAS2 |-> 0, QMD |-> 1, RDS |-> 2, MODBUS |-> 3 ]
KeyNames == [ FACTORY |-> 1, TEMPORARY |-> 2, ADMINISTRATOR |-> 3, MAINTENANCE |-> 4,
              USER_1 |-> 5, USER_2 |-> 6, USER_3 |-> 7 ]
TypeNames ==
  [ SYSTEM_PARAMETER |-> 0, ANALOG_MEASURAND |-> 30, BINARY |-> 31, COUNTER |-> 32,
    STANDARD_COUNTER |-> 33, FLOW_RATE |-> 34, STANDARD_FLOW_RATE |-> 35,
    CONVERSION_COEFFICIENT |-> 36, ERROR_COUNTER |-> 45, ERROR_STANDARD_COUNTER |-> 46,
    COMPRESSIBILITY |-> 47, TIME_WINDOW |-> 48, CORRECTION_COUNTER |-> 49, DOUBLE_COUNTER |-> 53,
    DOUBLE_ERROR_COUNTER |-> 54, DIAGNOSTICS |-> 59, DEVICE_ERROR |-> 61, SUM_OF_ALARMS |-> 62,
    TIMER |-> 65, TARIFF_COUNTER |-> 68, BASE_TARIFF_COUNTER |-> 69, SET_POINT |-> 70,
    DIFFERENCE_COUNTER |-> 72, DIFFERENCE_BASE_COUNTER |-> 73, COMPRESSIBILITY_Z |-> 74,
    COMPRESSIBILITY_Z_BASE |-> 75, ENERGY |-> 77, ERROR_ENERGY |-> 78,
    DOUBLE_TARIFF_COUNTER |-> 79, ANALOG_STATISTICS |-> 80, COUNTER_STATISTICS |-> 81,
    STANDARD_COUNTER_STATISTICS |-> 82, STATISTICS |-> 83, ANALOG_TIME_STATISTICS |-> 84,
    TIME_STATISTICS |-> 85, MODEM |-> 141 ]
DeviceNames == [ ELCOR |-> 128, ELCOR_PLUS |-> 131, ELCOR_LITE |-> 134 ]
CertificationNames == [ CMI_MID |-> 2, GENERIC |-> 4 ]
SwitchNames == [ NONE |-> 0, PROTECT_METROLOGICAL |-> 1, PROTECT_ALL |-> 2 ]
FormulaNames == [ CONST |-> 0, AGANX19 |-> 1, SGERG88 |-> 2, AGANX19MOD |-> 3, AGA8G1 |-> 4,
                  AGA8G2 |-> 5, AGA892DC |-> 6, GOSTNX19MOD |-> 7 ]
NameTables == [ Archive |-> ArchiveNames, ServiceNumber |-> ServiceNames, Protocol |-> ProtocolNames,
                EncryptionKeyId |-> KeyNames, ParameterObjectType |-> TypeNames,
                DeviceType |-> DeviceNames, CertificationVariant |-> CertificationNames,
                SwitchFunction |-> SwitchNames, CompressibilityFormula |-> FormulaNames ]
=============================================================================

-------------------------------- MODULE Cipher -------------------------------
(***************************************************************************)
(* The envelope of encrypted telegrams:                                    *)
(*   length(2, of the payload)  key-id  AES-128-CBC(key, iv = key,         *)
(*                                        payload, padding, CRC-16)        *)
(* The CRC covers length, key id, payload and padding.                     *)
(***************************************************************************)
EXTENDS Aes, Redundancy

PadLen(n) == (16 - ((n + 2) % 16)) % 16

\* An envelope for payload p with padding pad (Len(pad) = PadLen(Len(p))).
Seal(key, kid, p, pad) ==
  LET head == LE(Len(p), 2) \o <<kid>>
      plain == head \o p \o pad
  IN head \o CbcEncrypt(key, key, p \o pad \o CrcBytes(plain))

\* What is inside an envelope: verdict "ok" or the first test it fails.
Opened(key, kid, env) ==
  IF Len(env) < 3 THEN [v |-> "short", data |-> <<>>, pad |-> 0]
  ELSE IF env[3] # kid THEN [v |-> "keyid", data |-> <<>>, pad |-> 0]
  ELSE IF (Len(env) - 3) % 16 # 0 \/ Len(env) = 3 THEN [v |-> "blocks", data |-> <<>>, pad |-> 0]
  ELSE LET plain == CbcDecrypt(key, key, Drop(env, 3))
           n == Len(plain)
           len == LEVal(SubSeq(env, 1, 2))
       IN IF LastN(plain, 2) # CrcBytes(SubSeq(env, 1, 3) \o SubSeq(plain, 1, n - 2))
          THEN [v |-> "crc", data |-> <<>>, pad |-> 0]
          ELSE IF len > n - 2 THEN [v |-> "length", data |-> <<>>, pad |-> 0]
          ELSE [v |-> "ok", data |-> SubSeq(plain, 1, len), pad |-> n - 2 - len]
=============================================================================

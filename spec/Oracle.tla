------------------------------- MODULE Oracle -------------------------------
(* The cryptographic functions and the bulk-data functions that the concrete     *)
(* specification uses.  They are uninterpreted here; TLC takes their meaning from *)
(* /verif/oracle (Java, written from RFC 7693, 8032 and 7914, with known-answer   *)
(* tests), which shares no code with the implementation under test.               *)
(* Byte strings are sequences over 0..255; hexadecimal strings are TLA+ strings.  *)
(* Data to sign or verify are given as descriptors (see harness/src/io_env.rs),   *)
(* so that megabytes of data need not be TLA+ values.                             *)
EXTENDS Integers, Sequences

Uninterpreted(op) == CHOOSE x : x \notin {op}

Hex(s)                         == Uninterpreted("Hex")        \* hex string -> bytes
ToHex(b)                       == Uninterpreted("ToHex")      \* bytes -> hex string
Blake2b(n, b)                  == Uninterpreted("Blake2b")    \* unkeyed, n output bytes
EdVerify(key, msg, sig)        == Uninterpreted("EdVerify")   \* canonical S, [S]B = R + [h]A, A not degenerate
EdPub(seed)                    == Uninterpreted("EdPub")
Scrypt(pw, salt, ln, r, p, n)  == Uninterpreted("Scrypt")
DataLen(d)                     == Uninterpreted("DataLen")
DataBytes(d, start)            == Uninterpreted("DataBytes")
DataHash(d, start)             == Uninterpreted("DataHash")   \* Blake2b(64, DataBytes(d, start))
DataEdVerify(key, d, start, s) == Uninterpreted("DataEdVerify")
DataFp(d, start, n)            == Uninterpreted("DataFp")     \* FNV-1a fingerprint of the first n bytes
Reveals(t, secret)             == Uninterpreted("Reveals")    \* see Leaks!RevealsDef
=============================================================================

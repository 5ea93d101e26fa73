------------------------------- MODULE Formats -------------------------------
(* The minisign file formats, byte for byte: grammar (what is loaded) and        *)
(* canonical form (what is written).                                             *)
EXTENDS Bytes

AlgEd == <<69, 100>>            \* "Ed": plain Ed25519 (legacy signatures; keys)
AlgED == <<69, 68>>             \* "ED": pre-hashed
AlgB2 == <<66, 50>>             \* "B2": BLAKE2b checksum
KdfSc == <<83, 99>>             \* "Sc": scrypt
KdfNo == <<0, 0>>
LF    == <<10>>

UntrustedPrefix == <<117,110,116,114,117,115,116,101,100,32,99,111,109,109,101,110,116,58,32>>
TrustedPrefix   == <<116,114,117,115,116,101,100,32,99,111,109,109,101,110,116,58,32>>
PkCommentPrefix == <<109,105,110,105,115,105,103,110,32,112,117,98,108,105,99,32,107,101,121,58,32>>
TimestampPrefix == <<116,105,109,101,115,116,97,109,112,58>>

Bad == [ok |-> FALSE]

(* -------------------------------------------------------------- public keys *)
PkLen == 42
PkFields(b) == [ok |-> TRUE, alg |-> Slice(b, 0, 2), keynum |-> Slice(b, 2, 8), key |-> Slice(b, 10, 32),
                bytes |-> Take(b, PkLen)]
(* deviation, by design of the code: bytes after the 42nd are ignored by from_bytes *)
PkOfBytes(b) == IF Len(b) < PkLen THEN Bad ELSE PkFields(b)
PkOfB64(s) == IF Len(s) # 56 THEN Bad
              ELSE LET d == B64Decode(s) IN IF d.ok /\ Len(d.b) = PkLen THEN PkFields(d.b) ELSE Bad
PkOfText(t) == LET l == FirstLines(t, 2) IN IF Len(l) < 2 THEN Bad ELSE PkOfB64(l[2])
PkText(b) == UntrustedPrefix \o PkCommentPrefix \o UpperHex(Rev(Slice(b, 2, 8))) \o LF \o B64Encode(b) \o LF

(* -------------------------------------------------------------- secret keys *)
SkLen == 158
SkFields(b) == [ok |-> TRUE, alg |-> Slice(b, 0, 2), label |-> Slice(b, 2, 2), chkalg |-> Slice(b, 4, 2),
                salt |-> Slice(b, 6, 32), ops |-> Slice(b, 38, 8), mem |-> Slice(b, 46, 8),
                keynum |-> Slice(b, 54, 8), sk |-> Slice(b, 62, 64), chk |-> Slice(b, 126, 32),
                sealed |-> Slice(b, 54, 104), bytes |-> Take(b, SkLen)]
SkSeed(k) == Take(k.sk, 32)
SkPub(k)  == Drop(k.sk, 32)
SkOfBytes(b) == IF Len(b) < SkLen THEN Bad ELSE SkFields(b)
SkOfText(t) == LET l == FirstLines(t, 2) IN
               IF Len(l) < 2 THEN Bad
               ELSE LET d == B64Decode(l[2]) IN IF d.ok THEN SkOfBytes(d.b) ELSE Bad
SkText(comment, b) == UntrustedPrefix \o comment \o LF \o B64Encode(b) \o LF
(* is t the canonical text of key b, for some comment? *)
IsSkText(t, b) == /\ StartsWith(t, UntrustedPrefix)
                  /\ LET tail == LF \o B64Encode(b) \o LF
                     IN /\ Len(t) >= Len(UntrustedPrefix) + Len(tail)
                        /\ Drop(t, Len(t) - Len(tail)) = tail
                        /\ SingleLine(SubSeq(t, Len(UntrustedPrefix) + 1, Len(t) - Len(tail)))

(* --------------------------------------------------------------- signatures *)
SigLen == 74
KnownAlg(a) == a \in {AlgEd, AlgED}
Bones(b) == [ok |-> TRUE, alg |-> Slice(b, 0, 2), keynum |-> Slice(b, 2, 8), sig |-> Slice(b, 10, 64),
             hastc |-> FALSE, tc |-> <<>>, gsig |-> <<>>, uc |-> <<>>, bones |-> Take(b, SigLen)]
SigOfBones(b) == IF Len(b) < SigLen \/ ~KnownAlg(Take(b, 2)) THEN Bad ELSE Bones(b)

SigOfText(t) ==
  LET l == FirstLines(t, 4) IN
  IF \/ Len(l) < 4
     \/ ~StartsWith(l[1], UntrustedPrefix)
     \/ ~StartsWith(l[3], TrustedPrefix)
  THEN Bad
  ELSE LET s == B64Decode(Trim(l[2]))
           g == B64Decode(Trim(l[4]))
       IN IF \/ ~s.ok \/ Len(s.b) # SigLen \/ ~KnownAlg(Take(s.b, 2))
             \/ ~g.ok \/ Len(g.b) # 64
          THEN Bad
          ELSE [Bones(s.b) EXCEPT !.hastc = TRUE,
                                  !.tc = Drop(l[3], Len(TrustedPrefix)),
                                  !.gsig = g.b,
                                  !.uc = Drop(l[1], Len(UntrustedPrefix))]
SigText(sg) == UntrustedPrefix \o sg.uc \o LF \o B64Encode(sg.bones) \o LF
               \o TrustedPrefix \o sg.tc \o LF \o B64Encode(sg.gsig) \o LF
(* the box that remains when only the bare signature is kept *)
Cut(sg) == IF sg.ok THEN [sg EXCEPT !.hastc = FALSE, !.tc = <<>>, !.gsig = <<>>, !.uc = <<>>] ELSE sg
=============================================================================

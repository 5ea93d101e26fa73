-------------------------------- MODULE Terms --------------------------------
(* Symbolic (Dolev-Yao) keys, messages and signatures, shared by the abstract     *)
(* models: a signature is a term that only the holder of the key can make; the     *)
(* digest of data is an opaque term; nothing else is assumed of the cryptography.  *)
EXTENDS Naturals, Sequences, FiniteSets

Digest(d)      == <<"digest", d>>
Joined(s, c)   == <<"joined", s, c>>          \* the bytes of a signature followed by a comment
SigBy(k, m)    == [by |-> k, over |-> m]
NoSig          == [by |-> "nobody", over |-> <<"nothing">>]

(* degenerate public keys: nobody holds their secret key *)
DegenerateKeys == {"zero", "neutral", "neutral-"}

SOverDigest(k, d, s)     == s = SigBy(k, Digest(d))
SOverData(k, d, s)       == s = SigBy(k, d)
SOverComment(k, s, c, g) == g = SigBy(k, Joined(s, c))
SDegenerate(k)           == k \in DegenerateKeys
=============================================================================

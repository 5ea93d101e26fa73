-------------------------------- MODULE Core ---------------------------------
(* What minisign decides, independently of how keys, messages and signatures     *)
(* are represented.  Instantiated twice: symbolically (Forge.tla, Keys.tla, where TLC *)
(* explores every history of honest parties and of an attacker) and concretely    *)
(* (Judge.tla, over the bytes of recorded executions).                            *)
EXTENDS Integers
CONSTANTS
  TagPrehashed, TagLegacy,       \* algorithm tags of signatures
  LabelNone, LabelScrypt,        \* encryption labels of secret keys
  OverDigest(_, _, _),           \* key, data, sig: sig is valid by key over the digest of the data
  OverData(_, _, _),             \* key, data, sig: ... over the data themselves
  OverComment(_, _, _, _),       \* key, sig, comment, gsig: gsig is valid by key over sig then comment
  Degenerate(_),                 \* keys that verify nothing
  Checksum(_, _, _),             \* algorithm tag, key id, secret key
  Unmask(_, _)                   \* stored secret key, password: [ok, alg, keynum, sk, chk]

KnownTag(t) == t \in {TagPrehashed, TagLegacy}

(* a signature box: [alg, keynum, sig, hastc, tc, gsig]; a public key: [keynum, key] *)
IdOK(pk, sg)         == sg.keynum = pk.keynum
PrimaryOK(pk, sg, d) == /\ ~Degenerate(pk.key)
                        /\ KnownTag(sg.alg)
                        /\ IF sg.alg = TagPrehashed THEN OverDigest(pk.key, d, sg.sig)
                                                    ELSE OverData(pk.key, d, sg.sig)
LegacyOK(sg, allow)  == sg.alg = TagPrehashed \/ allow
CommentOK(pk, sg)    == sg.hastc => ~Degenerate(pk.key) /\ OverComment(pk.key, sg.sig, sg.tc, sg.gsig)

Accepts(pk, sg, d, allow) == /\ IdOK(pk, sg)
                             /\ LegacyOK(sg, allow)
                             /\ PrimaryOK(pk, sg, d)
                             /\ CommentOK(pk, sg)

(* a secret key: [alg, label, keynum, sk, chk, ...] *)
Usable(k) == k.chk = Checksum(k.alg, k.keynum, k.sk)

(* outcome of the two families of opening functions: what they return, if anything *)
OpensPlain(k)     == k.label = LabelNone /\ Usable(k)
OpensWith(k, pw)  == /\ k.label = LabelScrypt
                     /\ LET u == Unmask(k, pw) IN u.ok /\ Usable(u)
MaySign(k)        == Usable(k)
=============================================================================

-------------------------------- MODULE Forge --------------------------------
(* Honest signers (this library, and older ones that make legacy signatures) and  *)
(* an attacker who recombines everything they published: data signatures, global  *)
(* signatures, comments, key ids, tags, public keys.  TLC visits every history of *)
(* at most MaxSign honest signatures and every box the attacker can assemble.     *)
EXTENDS Terms, TLC, Json

CONSTANTS MaxSign, Emit

Signers  == {"k1", "k2", "k3"}
IdOf(k)  == CASE k = "k1" -> "n1" [] k = "k2" -> "n2" [] k = "k3" -> "n1"   \* k3: its holder copied the id of k1
File1    == <<"file", 1>>
File2    == <<"file", 2>>
Files    == {File1, File2}
Comments == {"c1", "c2"}

SUnmask(k, pw)      == [ok |-> FALSE]
SChecksum(a, b, c)  == <<"chk", a, b, c>>
C == INSTANCE Core WITH TagPrehashed <- "ED", TagLegacy <- "Ed", LabelNone <- "none", LabelScrypt <- "Sc",
       OverDigest <- SOverDigest, OverData <- SOverData, OverComment <- SOverComment, Degenerate <- SDegenerate,
       Checksum <- SChecksum, Unmask <- SUnmask

VARIABLES made,    \* what honest holders did: [key, tag, data, tc]
          att      \* the attacker's attempt, or NoAttempt
vars == <<made, att>>
NoAttempt == [none |-> TRUE]

SigOf(m)  == SigBy(m.key, IF m.tag = "ED" THEN Digest(m.data) ELSE m.data)
GsigOf(m) == SigBy(m.key, Joined(SigOf(m), m.tc))

(* data the attacker may submit: the files; digests of files and signatures with   *)
(* comment, as files of their own                                                  *)
DataSpace == Files \cup {Digest(f) : f \in Files} \cup {Joined(SigOf(m), m.tc) : m \in made}
SigSpace  == {SigOf(m) : m \in made} \cup {GsigOf(m) : m \in made} \cup {NoSig}
TcSpace   == Comments \cup {"c1+", ""}
PkSpace   == {[keynum |-> n, key |-> k] : n \in {"n1", "n2"}, k \in Signers \cup DegenerateKeys}

HonestSign(k, tag, d, c) ==
  /\ att = NoAttempt
  /\ Cardinality(made) < MaxSign
  /\ made' = made \cup {[key |-> k, tag |-> tag, data |-> d, tc |-> c]}
  /\ made' # made
  /\ UNCHANGED att
NewSign    == \E k \in Signers, d \in Files, c \in Comments : HonestSign(k, "ED", d, c)
(* made by an older implementation *)
LegacySign == \E k \in {"k1", "k2"}, d \in {File1, Digest(File2)} : HonestSign(k, "Ed", d, "c1")

TryBox(b, pk, d, allow) ==
  /\ att = NoAttempt
  /\ att' = [box |-> b, pk |-> pk, data |-> d, allow |-> allow,
             accepted |-> C!Accepts(pk, b, d, allow)]
  /\ UNCHANGED made
Attack ==
  /\ att = NoAttempt
  /\ \E s \in SigSpace, n \in {"n1", "n2"}, a \in {"ED", "Ed"}, pk \in PkSpace, d \in DataSpace, allow \in BOOLEAN :
      \/ \E c \in TcSpace, g \in SigSpace :
           TryBox([alg |-> a, keynum |-> n, sig |-> s, hastc |-> TRUE, tc |-> c, gsig |-> g], pk, d, allow)
      \/ TryBox([alg |-> a, keynum |-> n, sig |-> s, hastc |-> FALSE, tc |-> "", gsig |-> NoSig], pk, d, allow)

Init == made = {} /\ att = NoAttempt
Next == NewSign \/ LegacySign \/ Attack
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------- properties *)
Accepted == att # NoAttempt /\ att.accepted
(* the message a data signature is over *)
Msg(tag, d) == IF tag = "ED" THEN Digest(d) ELSE d

(* C01: the holder of exactly this key signed exactly this message, and the id matches *)
Unforgeable == Accepted =>
  /\ att.pk.key \in Signers
  /\ att.box.keynum = att.pk.keynum
  /\ \/ \E m \in made : m.key = att.pk.key /\ Msg(m.tag, m.data) = Msg(att.box.alg, att.data)
     \* the bytes of a signature followed by its comment are a message the holder signed too
     \/ \E m \in made : m.key = att.pk.key /\ att.box.alg = "Ed" /\ att.data = Joined(SigOf(m), m.tc)

(* ... and unless legacy signatures are allowed, as data, by way of this library.  Named deviation of the   *)
(* format (RelabelledDigest): a holder who legacy-signed a file that is the digest of another signed that one *)
SignedAsData == Accepted /\ ~att.allow =>
  \E m \in made : /\ m.key = att.pk.key
                  /\ \/ m.tag = "ED" /\ m.data = att.data
                     \/ m.tag = "Ed" /\ m.data = Digest(att.data)

(* C03: the comment was given for this very data signature, by the same holder *)
CommentBound == Accepted /\ att.box.hastc =>
  \E m \in made : m.key = att.pk.key /\ m.tc = att.box.tc /\ SigOf(m) = att.box.sig

(* C04 *)
LegacyOnRequest == Accepted /\ att.box.alg = "Ed" => att.allow
LegacyFlagIrrelevant == att # NoAttempt /\ att.box.alg = "ED" =>
  att.accepted = C!Accepts(att.pk, att.box, att.data, ~att.allow)

(* C01: degenerate keys verify nothing *)
DegenerateReject == Accepted => att.pk.key \notin DegenerateKeys

(* C02: what an honest holder made is accepted *)
HonestAccepted == att # NoAttempt /\ (\E m \in made :
     /\ att.box = [alg |-> m.tag, keynum |-> IdOf(m.key), sig |-> SigOf(m), hastc |-> TRUE, tc |-> m.tc, gsig |-> GsigOf(m)]
     /\ att.pk = [keynum |-> IdOf(m.key), key |-> m.key]
     /\ att.data = m.data /\ (m.tag = "ED" \/ att.allow))
  => att.accepted

(* ---------------------------------------------------------- behaviours for the code *)
(* with a fixed history, every attempt is printed and replayed into the library *)
FixedHistory == {[key |-> "k1", tag |-> "ED", data |-> File1, tc |-> "c1"],
                 [key |-> "k1", tag |-> "ED", data |-> File2, tc |-> "c2"],
                 [key |-> "k2", tag |-> "ED", data |-> File1, tc |-> "c1"],
                 [key |-> "k3", tag |-> "ED", data |-> File1, tc |-> "c1"],
                 [key |-> "k1", tag |-> "Ed", data |-> File1, tc |-> "c1"],
                 [key |-> "k1", tag |-> "Ed", data |-> Digest(File2), tc |-> "c1"]}
(* the parts worth recombining when replaying: fewer than all *)
RSig  == {SigOf(m) : m \in FixedHistory} \cup {GsigOf([key |-> "k1", tag |-> "ED", data |-> File1, tc |-> "c1"]), NoSig}
RData == Files \cup {Digest(File1), Digest(File2), Joined(SigBy("k1", Digest(File1)), "c1")}
EAttack ==
  /\ att = NoAttempt
  /\ \E s \in RSig, n \in {"n1", "n2"}, a \in {"ED", "Ed"}, pk \in PkSpace, d \in RData, allow \in BOOLEAN :
      \/ \E c \in TcSpace, g \in {GsigOf(m) : m \in FixedHistory} \cup {NoSig} :
           TryBox([alg |-> a, keynum |-> n, sig |-> s, hastc |-> TRUE, tc |-> c, gsig |-> g], pk, d, allow)
      \/ TryBox([alg |-> a, keynum |-> n, sig |-> s, hastc |-> FALSE, tc |-> "", gsig |-> NoSig], pk, d, allow)
(* how far an attempt is from the nearest thing an honest holder made *)
B(x) == IF x THEN 1 ELSE 0
Dist(m) == B(att.box.alg # m.tag) + B(att.box.keynum # IdOf(m.key)) + B(att.box.sig # SigOf(m)) + B(att.pk.keynum # IdOf(m.key))
         + B(att.pk.key # m.key) + B(att.data # m.data)
         + (IF att.box.hastc THEN B(att.box.tc # m.tc) + B(att.box.gsig # GsigOf(m)) ELSE 0)
Near == \E m \in made : Dist(m) <= Emit
EInit == made = FixedHistory /\ att = NoAttempt
ENext == EAttack
ESpec == EInit /\ [][ENext]_vars
Printed == att # NoAttempt /\ (att.accepted \/ Near) => PrintT("@@" \o ToJson([att |-> att]))
=============================================================================

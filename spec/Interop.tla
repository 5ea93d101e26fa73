------------------------------- MODULE Interop --------------------------------
(* Two implementations, "here" and "there", pass keys and signatures to each other  *)
(* through stored text.  Each writes and reads in its own dialect: how it lays out    *)
(* and computes each aspect of the format.  "there" follows the format.  As long as    *)
(* "here" does too, every assignment of the steps of a history to the two              *)
(* implementations succeeds; and a deviation in any single aspect shows in some         *)
(* history, even if "here" always agrees with itself.                                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Deviation, Emit      \* "none", or the aspect in which "here" deviates

Who == {"here", "there"}
Aspects == {"key-layout", "key-tags", "key-id", "checksum", "mask", "limits", "public-of-seed", "text-lines", "base64",
            "pk-layout", "sig-layout", "sig-tag", "data-hash", "global-message"}
Dialect(w) == [a \in Aspects |-> IF w = "here" /\ a = Deviation THEN "other" ELSE "std"]

SkAspects(kind) == {"key-layout", "key-tags", "key-id", "checksum", "public-of-seed", "text-lines", "base64"}
                   \cup (IF kind = "enc" THEN {"mask", "limits"} ELSE {})
PkAspects == {"pk-layout", "key-id", "text-lines", "base64", "public-of-seed"}
SigAspects(t) == {"sig-layout", "sig-tag", "key-id", "global-message", "text-lines", "base64"} \cup (IF t = "legacy" THEN {} ELSE {"data-hash"})

VARIABLES stage, kind, tag, nonce, secret, public, signature, hist, res
vars == <<stage, kind, tag, nonce, secret, public, signature, hist, res>>
None == [none |-> TRUE]
Init == /\ stage = "gen" /\ kind \in {"plain", "enc"} /\ tag \in {"pre", "legacy"} /\ nonce \in {"det", "rand"}
        /\ secret = None /\ public = None /\ signature = None /\ hist = <<>> /\ res = "none"

Writes(w, A) == [a \in A |-> Dialect(w)[a]]
Reads(w, x)  == \A a \in DOMAIN x : x[a] = Dialect(w)[a]
Step(op, w)  == hist' = Append(hist, <<op, w>>)
Fail == stage' = "done" /\ res' = "err"

Gen(w) == /\ stage = "gen" /\ Step("gen", w)
          /\ secret' = Writes(w, SkAspects(kind)) /\ public' = Writes(w, PkAspects)
          /\ stage' = "restore" /\ UNCHANGED <<kind, tag, nonce, signature, res>>
(* open the secret key and store it again, and the public key derived from it *)
Restore(w) == /\ stage = "restore" /\ Step("restore", w)
              /\ IF ~Reads(w, secret) THEN Fail /\ UNCHANGED <<secret, public>>
                 ELSE /\ secret' = Writes(w, SkAspects(kind)) /\ public' = Writes(w, PkAspects) /\ stage' = "sign" /\ UNCHANGED res
              /\ UNCHANGED <<kind, tag, nonce, signature>>
NoRestore == stage = "restore" /\ stage' = "sign" /\ UNCHANGED <<kind, tag, nonce, secret, public, signature, hist, res>>
(* "here" makes pre-hashed signatures only, with nonces of its own *)
Sign(w) == /\ stage = "sign" /\ (w = "here" => tag = "pre" /\ nonce = "rand") /\ Step("sign", w)
           /\ IF ~Reads(w, secret) THEN Fail /\ UNCHANGED signature
              ELSE signature' = Writes(w, SigAspects(tag)) /\ stage' = "resave" /\ UNCHANGED res
           /\ UNCHANGED <<kind, tag, nonce, secret, public>>
Resave(w) == /\ stage = "resave" /\ Step("resave", w)
             /\ IF ~Reads(w, signature) THEN Fail /\ UNCHANGED signature
                ELSE signature' = Writes(w, SigAspects(tag)) /\ stage' = "verify" /\ UNCHANGED res
             /\ UNCHANGED <<kind, tag, nonce, secret, public>>
NoResave == stage = "resave" /\ stage' = "verify" /\ UNCHANGED <<kind, tag, nonce, secret, public, signature, hist, res>>
Verify(w) == /\ stage = "verify" /\ Step("verify", w)
             /\ IF Reads(w, public) /\ Reads(w, signature) THEN stage' = "done" /\ res' = "ok" ELSE Fail
             /\ UNCHANGED <<kind, tag, nonce, secret, public, signature>>
Next == (\E w \in Who : Gen(w) \/ Restore(w) \/ Sign(w) \/ Resave(w) \/ Verify(w)) \/ NoRestore \/ NoResave
Spec == Init /\ [][Next]_vars

(* C15 *)
Interoperates == res # "err"
(* a deviation is invisible as long as only one implementation is used *)
AloneFine == res = "err" => \E i, j \in DOMAIN hist : hist[i][2] # hist[j][2]
Printed == Emit /\ stage = "done" => PrintT("@@" \o ToJson([kind |-> kind, tag |-> tag, nonce |-> nonce, hist |-> hist]))
=============================================================================

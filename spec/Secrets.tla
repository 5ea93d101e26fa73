-------------------------------- MODULE Secrets -------------------------------
(* What an onlooker learns.  Holders make keys (sealed with a password or not), open    *)
(* them with right and wrong passwords, sign, derive public keys, and fail; the         *)
(* onlooker sees public keys, signatures, sealed boxes, messages of errors and what is    *)
(* printed, and draws every conclusion from them (closure under Dolev-Yao rules for a     *)
(* stream mask and for Schnorr signatures).  Key "B" is sealed with the same password      *)
(* as "A" and its seed is known to the onlooker ("B" was retired and published).           *)
(* Designs: "sound", and, to show that the property can fail:                                *)
(*   "shared-nonce"   both signatures of a call use one nonce                                *)
(*   "fixed-nonce"    the nonce is known                                                      *)
(*   "periodic-mask"  the mask of the seed is that of the public half                         *)
(*   "clear-seed"     a sealed box does not mask the seed                                      *)
(*   "one-salt"       all boxes have the same salt                                             *)
(*   "quote"          the error for a wrong password quotes it                                  *)
(*   "wrong-half"     the public key derived from a secret key is the other half                *)
(*   "dump"           a failing signing call reports the key                                     *)
(*   "echo"           opening a key prints the password                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, Design, Emit

Keys == {"A", "B"}
Pws  == {"p", "q"}                 \* "p" seals both keys; "q" is the password of something else
Segs == {"id", "seed", "pub", "chk"}

Ops == [op : {"gen", "genw"}, k : Keys, sealed : BOOLEAN]
       \cup [op : {"open"}, k : Keys, pw : Pws \cup {"none"}]
       \cup [op : {"sign"}, k : Keys, how : {"ok", "foreign", "fault"}]
       \cup [op : {"derive"}, k : Keys]

VARIABLES have,      \* keys made: function to "plain", "sealed", "opened"
          seen,      \* what the onlooker saw
          hist
vars == <<have, seen, hist>>

Part(k, s)  == <<s, k>>
Salt(k)     == IF Design = "one-salt" THEN "salt" ELSE k
MaskSeg(s)  == IF Design = "periodic-mask" /\ s = "seed" THEN "pub" ELSE s
Sealed(k, s) == IF Design = "clear-seed" /\ s = "seed" THEN Part(k, s)
                ELSE <<"xor", <<"mask", "p", Salt(k), MaskSeg(s)>>, Part(k, s)>>
Box(k)      == {Sealed(k, s) : s \in Segs} \cup {<<"salt", Salt(k)>>}
Nonce(k, n, which) == CASE Design = "shared-nonce" -> <<"nonce", k, n>>
                        [] Design = "fixed-nonce"  -> <<"known">>
                        [] OTHER -> <<"nonce", k, n, which>>

Init == have = [k \in Keys |-> "none"] /\ seen = {<<"known">>} /\ hist = <<>>

Possible(o) == CASE o.op \in {"gen", "genw"} -> have[o.k] = "none"
                 [] o.op = "open" -> have[o.k] # "none"
                 [] o.op = "sign" -> have[o.k] \in {"plain", "opened"}
                 [] o.op = "derive" -> have[o.k] \in {"plain", "opened"}
Opens(o) == have[o.k] \in {"sealed", "opened"} /\ o.pw = "p"
Shown(o) ==
  CASE o.op \in {"gen", "genw"} -> {Part(o.k, "pub"), Part(o.k, "id")} \cup (IF o.sealed THEN Box(o.k) ELSE {})
                                   \cup (IF o.k = "B" THEN {Part("B", "seed")} ELSE {})
    [] o.op = "open" -> CASE Design = "quote" /\ ~Opens(o) /\ o.pw # "none" -> {<<"pw", o.pw>>}
                          [] Design = "echo" /\ Opens(o) -> {<<"pw", o.pw>>}
                          [] OTHER -> {}
    [] o.op = "sign" -> IF o.how = "ok" THEN {<<"sig", o.k, Nonce(o.k, Len(hist), 1), <<"m", Len(hist)>>>>, <<"sig", o.k, Nonce(o.k, Len(hist), 2), <<"t", Len(hist)>>>>}
                        ELSE IF Design = "dump" THEN {Part(o.k, "seed")} ELSE {}
    [] o.op = "derive" -> {Part(o.k, IF Design = "wrong-half" THEN "seed" ELSE "pub"), Part(o.k, "id")}

Do(o) == /\ Len(hist) < MaxOps /\ Possible(o)
         /\ seen' = seen \cup Shown(o)
         /\ hist' = Append(hist, o)
         /\ have' = CASE o.op \in {"gen", "genw"} -> [have EXCEPT ![o.k] = IF o.sealed THEN "sealed" ELSE "plain"]
                      [] o.op = "open" /\ Opens(o) -> [have EXCEPT ![o.k] = "opened"]
                      [] OTHER -> have
Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* conclusions *)
Once(S) ==
  S \cup {x[3] : x \in {y \in S : y[1] = "xor" /\ y[2] \in S}}
    \cup {x[2] : x \in {y \in S : y[1] = "xor" /\ y[3] \in S}}
    \cup UNION {{<<"mask", x[2], y[2], s>> : s \in Segs} : x \in {z \in S : z[1] = "pw"}, y \in {z \in S : z[1] = "salt"}}
    \cup {Part(x[2], "seed") : x \in {y \in S : y[1] = "sig" /\ y[3] \in S}}
    \cup {Part(x[2], "seed") : x \in {y \in S : y[1] = "sig" /\ \E z \in S : z[1] = "sig" /\ z[2] = y[2] /\ z[3] = y[3] /\ z[4] # y[4]}}
    \cup {Part(x[2], "pub") : x \in {y \in S : y[1] = "seed"}}
    \cup {Part(x[2], "chk") : x \in {y \in S : y[1] = "seed" /\ Part(y[2], "id") \in S}}
RECURSIVE Closure(_)
Closure(S) == LET T == Once(S) IN IF T = S THEN S ELSE Closure(T)

SeedSecret     == Part("A", "seed") \notin Closure(seen)
PasswordSecret == \A p \in Pws : <<"pw", p>> \notin Closure(seen)
ChecksumSecret == have["A"] # "none" => Part("A", "chk") \notin Closure(seen)
(* the onlooker is not blind: what is published is known *)
NotBlind       == \A k \in Keys : have[k] # "none" => Part(k, "pub") \in Closure(seen)
(* behaviours that cannot be extended *)
Printed == (Emit /\ Len(hist) = MaxOps) => PrintT("@@" \o ToJson(hist))
==============================================================================

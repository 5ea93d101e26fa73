--------------------------------- MODULE Pair ---------------------------------
(* Signing, with or without a public key.  The secret key holds a seed and a copy   *)
(* of the public key, which may be that of another key; the public key given may    *)
(* be any key.  A signature is made with the seed and bound to the copy: it is      *)
(* valid by a key only if both are that key's.                                       *)
(* Designs: how it is decided whether the public key matches                         *)
(*   "global"   verify the comment signature with it (this library)                  *)
(*   "data"     verify the data signature with it                                    *)
(*   "both"                                                                           *)
(* and, to show that the property can fail:                                           *)
(*   "copy"     compare it with the copy                                              *)
(*   "id"       compare the key ids                                                   *)
(*   "seed"     compare it with the key of the seed, whatever was signed with         *)
(*   "late"     returns the signature and tells afterwards                            *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Design, Emit

Keys == {"A", "B"}
Degenerate == {"zero", "neutral", "junk"}     \* nobody's keys
Ids == {"i", "j"}
Seals == {"open", "sealed", "damaged"}

VARIABLES sk, pk, tc, fault,        \* the arguments; the reader fails
          pc, sig, gsig, res
vars == <<sk, pk, tc, fault, pc, sig, gsig, res>>
NoKey == [key |-> "none", id |-> "none"]

Init == /\ sk \in [seed : Keys, copy : Keys, id : {"i"}, seal : Seals]
        /\ pk \in {NoKey} \cup [key : Keys \cup Degenerate, id : Ids]
        /\ tc \in {"given", "default"} /\ fault \in BOOLEAN
        /\ pc = "check" /\ sig = <<>> /\ gsig = <<>> /\ res = "none"

Made(m) == [seed |-> sk.seed, copy |-> sk.copy, over |-> m]
ValidBy(k, s, m) == k \in Keys /\ s = [seed |-> k, copy |-> k, over |-> m]
Data == "data"
Comment == <<sig, tc>>
Finish(r) == res' = r /\ pc' = "done"

Check == /\ pc = "check" /\ IF sk.seal # "open" THEN Finish("err") ELSE pc' = "read" /\ UNCHANGED res
         /\ UNCHANGED <<sk, pk, tc, fault, sig, gsig>>
Read == /\ pc = "read" /\ IF fault THEN Finish("err") ELSE pc' = "sign" /\ UNCHANGED res
        /\ UNCHANGED <<sk, pk, tc, fault, sig, gsig>>
Sign == /\ pc = "sign" /\ sig' = Made(Data) /\ pc' = "comment" /\ UNCHANGED <<sk, pk, tc, fault, gsig, res>>
SignComment == /\ pc = "comment" /\ gsig' = Made(Comment) /\ pc' = "match" /\ UNCHANGED <<sk, pk, tc, fault, sig, res>>
Matches ==
  CASE Design = "global" -> ValidBy(pk.key, gsig, Comment)
    [] Design = "data"   -> ValidBy(pk.key, sig, Data)
    [] Design = "both"   -> ValidBy(pk.key, sig, Data) /\ ValidBy(pk.key, gsig, Comment)
    [] Design = "copy"   -> pk.key = sk.copy
    [] Design = "id"     -> pk.id = sk.id
    [] Design = "seed"   -> pk.key = sk.seed
    [] Design = "late"   -> TRUE
Match == /\ pc = "match" /\ IF pk # NoKey /\ ~Matches THEN Finish("err") ELSE Finish("ok")
         /\ UNCHANGED <<sk, pk, tc, fault, sig, gsig>>
Next == Check \/ Read \/ Sign \/ SignComment \/ Match
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Returned == res = "ok"
(* C17 *)
SignedMatches == Returned /\ pk # NoKey => ValidBy(pk.key, sig, Data) /\ ValidBy(pk.key, gsig, Comment)
MatchingAccepted == pc = "done" /\ sk.seal = "open" /\ ~fault /\ sk.seed = sk.copy /\ pk.key = sk.seed => Returned
(* nothing but the refusal depends on the public key *)
SameAsWithout == Returned => sig = Made(Data) /\ gsig = Made(Comment)
(* C09, C12 *)
OnlyOpen == Returned => sk.seal = "open"
OnlyRead == Returned => ~fault
Ends == <>(pc = "done")
Printed == Emit /\ pc = "done" => PrintT("@@" \o ToJson([sk |-> sk, pk |-> pk, tc |-> tc, fault |-> fault, ok |-> Returned]))
=============================================================================

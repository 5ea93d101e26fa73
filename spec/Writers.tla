------------------------------- MODULE Writers --------------------------------
(* Generating a key pair and writing it: two byte strings, each to a writer of its  *)
(* own.  The environment decides, for every call, how much a writer takes, whether  *)
(* it is interrupted or fails, and whether a flush succeeds.  What a writer took is  *)
(* only delivered once it was flushed.                                               *)
(* Designs:                                                                          *)
(*   "sequential"  writes and flushes one after the other (this library)             *)
(*   "together"    writes both, then flushes both (as good)                          *)
(* and, to show that the properties can fail:                                        *)
(*   "once"        writes once and does not look at how much was taken               *)
(*   "noflush"     does not flush the second writer                                  *)
(*   "early"       flushes before it writes                                          *)
(*   "deaf"        does not look at the outcome of flushing                          *)
(*   "stuck"       takes a writer that accepts nothing for one that took everything  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS L1, L2,          \* pieces of the public key, of the secret key
          MaxFaults, Design, Emit

W == {1, 2}
Len1(w) == IF w = 1 THEN L1 ELSE L2
VARIABLES plan,     \* what is left to do: <<"w", w>>, <<"f", w>>
          taken, delivered, log, faults, res
vars == <<plan, taken, delivered, log, faults, res>>

Plan == CASE Design = "together" -> << <<"w", 1>>, <<"w", 2>>, <<"f", 1>>, <<"f", 2>> >>
          [] Design = "noflush"  -> << <<"w", 1>>, <<"f", 1>>, <<"w", 2>> >>
          [] Design = "early"    -> << <<"w", 1>>, <<"f", 1>>, <<"f", 2>>, <<"w", 2>> >>
          [] OTHER               -> << <<"w", 1>>, <<"f", 1>>, <<"w", 2>>, <<"f", 2>> >>

Init == /\ plan = Plan /\ res = "none" /\ faults = 0
        /\ taken = [w \in W |-> 0] /\ delivered = [w \in W |-> 0] /\ log = [w \in W |-> <<>>]

Note(w, k, n) == log' = [log EXCEPT ![w] = Append(@, [k |-> k, n |-> n])]
Fault == faults < MaxFaults /\ faults' = faults + 1
Fail == res' = "err" /\ UNCHANGED plan
Go == res = "none" /\ plan # <<>>
Cur == Head(plan)
Done == plan' = Tail(plan) /\ res' = (IF Tail(plan) = <<>> THEN "ok" ELSE "none")
Stay == UNCHANGED <<plan, res>>
Take(k) == /\ Go /\ Cur[1] = "w"
           /\ LET w == Cur[2] IN
              /\ k \in 1..(Len1(w) - taken[w])
              /\ taken' = [taken EXCEPT ![w] = @ + k] /\ Note(w, "w", k)
              /\ IF taken[w] + k = Len1(w) \/ Design = "once" THEN Done ELSE Stay
           /\ UNCHANGED <<delivered, faults>>
WIntr == /\ Go /\ Cur[1] = "w" /\ Fault /\ Note(Cur[2], "i", 0) /\ Stay /\ UNCHANGED <<taken, delivered>>
WFail == /\ Go /\ Cur[1] = "w" /\ Fault /\ Note(Cur[2], "e", 0) /\ Fail /\ UNCHANGED <<taken, delivered>>
WZero == /\ Go /\ Cur[1] = "w" /\ Fault /\ Note(Cur[2], "w", 0)
         /\ IF Design = "stuck" THEN Done ELSE Fail
         /\ UNCHANGED <<taken, delivered>>
Flush == /\ Go /\ Cur[1] = "f"
         /\ delivered' = [delivered EXCEPT ![Cur[2]] = taken[Cur[2]]]
         /\ Note(Cur[2], "f", 0) /\ Done /\ UNCHANGED <<taken, faults>>
FFail(k) == /\ Go /\ Cur[1] = "f" /\ Fault /\ Note(Cur[2], k, 0)
            /\ IF Design = "deaf" THEN Done ELSE Fail
            /\ UNCHANGED <<taken, delivered>>
Next == (\E k \in 1..(L1 + L2) : Take(k)) \/ WIntr \/ WFail \/ WZero \/ Flush \/ FFail("fe") \/ FFail("fi")
Spec == Init /\ [][Next]_vars /\ WF_vars((\E k \in 1..(L1 + L2) : Take(k)) \/ Flush)

TypeOK == \A w \in W : taken[w] \in 0..Len1(w) /\ delivered[w] <= taken[w]
(* C13 *)
Complete == res = "ok" => \A w \in W : delivered[w] = Len1(w)
Bad == \E w \in W : \E i \in DOMAIN log[w] : log[w][i].k \in {"e", "fe", "fi"} \/ (log[w][i].k = "w" /\ log[w][i].n = 0)
FaultIsError == Bad => res # "ok"
Quiet == res = "err" => Bad
(* the same, as Judge.tla states it, over the logs alone *)
LastOf(l, ks) == LET S == {i \in DOMAIN l : l[i].k \in ks} IN IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Flushed(l) == LastOf(l, {"f"}) > LastOf(l, {"w", "i", "fe", "fi"})
FlushedAfter == res = "ok" => Flushed(log[1]) /\ Flushed(log[2])
Ends == <>(res # "none")
Sure == \A w \in W : \A i \in DOMAIN log[w] : log[w][i].k # "i" /\ log[w][i].k # "fi"
Printed == Emit /\ res # "none" => PrintT("@@" \o ToJson([a |-> log[1], b |-> log[2], ok |-> res = "ok", sure |-> Sure]))
=============================================================================

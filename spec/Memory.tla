-------------------------------- MODULE Memory --------------------------------
(* What the calls of the library hold, in pieces of data, while they run and after *)
(* they returned.  The environment decides which calls are made, how much data or   *)
(* text there is, whether the artefact is good, and where reading fails.            *)
(* Designs:                                                                          *)
(*   "stream"   a buffer of one piece for what is hashed as it is read; legacy data, *)
(*              which the signature covers as such, is collected (this library)      *)
(* and, to show that the properties can fail:                                        *)
(*   "collect"        reads all there is before it hashes                            *)
(*   "tee"            collects what it will have to output                           *)
(*   "doubling"       copies all that was collected with every piece of a text       *)
(*   "eager"          provides for a derivation before it looks at what it costs     *)
(*   "leak"           keeps its buffer                                               *)
(*   "careless"       keeps its buffer when it fails                                 *)
(*   "remember"       keeps what it computed, for the next time                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxCalls, MaxN, Design, Emit

Ops == {"sign", "verify", "output", "legacy", "load", "open"}
Streaming == {"sign", "verify", "output"}
Buf == 1
Allowed == 2                    \* a derivation may cost this much; what is asked for can be more
VARIABLES live,                 \* what the library holds
          call,                 \* the call under way, or the last one
          hist
vars == <<live, call, hist>>

Idle == [op |-> "none", n |-> 0, good |-> TRUE, left |-> 0, pass |-> 0, from |-> 0, mine |-> 0, peak |-> 0, sum |-> 0, res |-> "none"]
Init == live = 0 /\ call = Idle /\ hist = <<>>

Running == call.op # "none" /\ call.res = "none"
MaxOf(a, b) == IF a > b THEN a ELSE b
(* the library takes k, while it runs *)
Grab(c, k) == [c EXCEPT !.mine = @ + k, !.sum = @ + k, !.peak = MaxOf(@, c.mine + k)]

Begin(op, n, good) ==
  /\ ~Running /\ Len(hist) < MaxCalls
  /\ op = "open" => n <= Allowed + 1
  /\ LET c == [Idle EXCEPT !.op = op, !.n = n, !.good = good, !.left = n, !.pass = 1, !.from = live]
     IN call' = IF op = "open"
                THEN IF n <= Allowed \/ Design = "eager" THEN Grab([c EXCEPT !.left = 0], n) ELSE [c EXCEPT !.left = 0]
                ELSE Grab(c, Buf)
  /\ UNCHANGED <<live, hist>>

Keeps(op) == op \in {"legacy", "load"} \/ Design = "collect" \/ (Design = "tee" /\ op = "output")
Piece ==
  /\ Running /\ call.left > 0
  /\ LET c == [call EXCEPT !.left = @ - 1] IN
     call' = IF ~Keeps(call.op) \/ call.pass = 2 THEN c
             ELSE IF Design = "doubling" /\ call.op = "load" THEN [Grab(c, 1) EXCEPT !.sum = @ + c.n - c.left]
             ELSE Grab(c, 1)
  /\ UNCHANGED <<live, hist>>

Remains(ok) == CASE Design = "leak" -> Buf [] Design = "careless" /\ ~ok -> Buf [] Design = "remember" /\ ok -> 1 [] OTHER -> 0
End(r) == /\ call' = [call EXCEPT !.res = r, !.mine = 0]
          /\ live' = live + Remains(r = "ok")
          /\ hist' = Append(hist, [op |-> call.op, n |-> call.n, good |-> call.good, at |-> IF r = "fault" THEN call.n - call.left ELSE 0,
                                   pass |-> call.pass, r |-> r])
Fault == Running /\ call.op \notin {"load", "open"} /\ End("fault")
Again == /\ Running /\ call.left = 0 /\ call.op = "output" /\ call.pass = 1 /\ call.good
         /\ call' = [call EXCEPT !.pass = 2, !.left = call.n] /\ UNCHANGED <<live, hist>>
Finish == /\ Running /\ call.left = 0
          /\ (call.op = "output" /\ call.good) => call.pass = 2
          /\ End(IF call.good /\ ~(call.op = "open" /\ call.n > Allowed) THEN "ok" ELSE "refused")

Next == (\E op \in Ops, n \in 0..MaxN, g \in BOOLEAN : Begin(op, n, g)) \/ Piece \/ Fault \/ Again \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Piece \/ Again \/ Finish)

TypeOK == live \in Nat /\ call.left <= call.n /\ call.mine <= call.peak
(* C21 *)
StreamsInPlace == call.op \in Streaming => call.peak <= Buf
InProportion   == call.op \in {"legacy", "load"} => call.peak <= call.n + Buf /\ call.sum <= 2 * call.n + Buf
AsAgreed       == call.op = "open" => call.peak <= Allowed
NothingLeft    == ~Running => live = 0 /\ call.mine = 0
Ends == []<>(~Running)
Printed == Emit /\ ~Running /\ Len(hist) = MaxCalls => PrintT("@@" \o ToJson(hist))
=============================================================================

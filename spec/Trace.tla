-------------------------------- MODULE Trace --------------------------------
(* Trace validation: a recorded execution of the real library, one event per call, *)
(* is replayed event by event; each event must be a step that the specification     *)
(* (Judge) allows in the state reached so far.  The state keeps what later events   *)
(* are judged against: outcomes of equivalent calls, nonces and random values used. *)
EXTENDS Leaks, Resources, Json, FiniteSets

CONSTANTS TraceFile, Prop

Trace == ndJsonDeserialize(TraceFile)

(* the position has a name that nothing else has: TLC caches less of what mentions a name that is also a variable's *)
VARIABLES pos_, base_, nonces_, randoms_, tally_, secrets_, masks_
vars == <<pos_, base_, nonces_, randoms_, tally_, secrets_, masks_>>

(* the outcome of a call, as far as it is determined by its arguments *)
Outcome(e) ==
  LET r == IF Crash(e) THEN "crash" ELSE e.res IN
  CASE e.op = "verify" -> <<r, IF e.stdout = "file" THEN e.outfp ELSE "">>
    [] e.op = "sign" /\ Got(e) -> <<r, e.ucout, IF e.tcgiven THEN e.tcout ELSE "", e.keynum, e.pre>>
    [] e.op \in {"pk_load", "pk_from_sk"} -> <<r, e.pkb>>
    [] e.op = "sk_load" -> <<r, e.skb>>
    [] e.op = "sig_load" /\ Got(e) -> <<r, e.text, e.bones>>
    [] e.op \in {"pk_store", "sk_store", "sig_store"} -> <<r, e.outb>>
    [] OTHER -> <<r>>
Excused(e) == "rlog" \in DOMAIN e /\ AnyFault(e.rlog)
Grouped(e) == Prop # "C21" /\ "grp" \in DOMAIN e /\ e.res # "skip"
JGroup(e) == IF Grouped(e) /\ e.grp \in DOMAIN base_ /\ ~Excused(e)
             THEN V(base_[e.grp] # Outcome(e), e.gp, "the same call had another outcome elsewhere") ELSE {}

(* nonces of a produced signature, with what they were used for *)
Uses(e) == IF e.op = "sign" /\ Got(e) /\ SigOfText(Hex(e.text)).ok
           THEN LET s == SigOfText(Hex(e.text)) IN
                {<<ToHex(RPart(s.sig)), "data", ToHex(DataHash(e.data, e.start))>>,
                 <<ToHex(RPart(s.gsig)), ToHex(s.sig), ToHex(s.tc)>>}
           ELSE {}
JNonce(e) == VAll(\E u \in Uses(e) : \E w \in nonces_ \cup Uses(e) : u[1] = w[1] /\ u # w, <<"C07", "C20">>, "nonce used for different messages")

(* random values of a generated key *)
Values(e) == IF e.op \in {"gen", "genw"} /\ Got(e) /\ "fresh" \in DOMAIN e
             THEN LET k == SkOfBytes(Hex(e.skb))
                      u == Opened(k, Hex(e.pw))
                  IN IF ~k.ok THEN [ok |-> FALSE]
                     ELSE IF ~u.ok THEN [ok |-> FALSE]
                     ELSE [ok |-> TRUE, seed |-> Take(u.sk, 32), id |-> u.keynum,
                           salt |-> IF k.label = KdfSc THEN k.salt ELSE <<>>]
             ELSE [ok |-> FALSE]
ValueSet(v) == IF ~v.ok THEN {} ELSE {ToHex(v.seed), ToHex(v.id)} \cup (IF v.salt = <<>> THEN {} ELSE {ToHex(v.salt)})
JSalt(e) == LET v == Values(e) IN
            V(v.ok /\ v.salt # <<>> /\ ToHex(v.salt) \in randoms_, "C06", "salt repeated")
JFresh(e) == LET v == Values(e) IN
             V(v.ok /\ (ValueSet(v) \cap randoms_ # {} \/ Cardinality(ValueSet(v)) # (IF v.salt = <<>> THEN 2 ELSE 3)),
               "C07", "random values repeated")
(* bitwise AND and OR of all values seen, by field: a bit that never varies shows in one of them *)
AndB(a, b) == IF a = <<>> THEN b ELSE [k \in 1..Len(a) |-> a[k] & b[k]]
OrB(a, b)  == IF a = <<>> THEN b ELSE [k \in 1..Len(a) |-> a[k] | b[k]]
Acc(t, x)  == IF x = <<>> THEN t ELSE [n |-> t.n + 1, a |-> AndB(t.a, x), o |-> OrB(t.o, x)]
Zero == [n |-> 0, a |-> <<>>, o |-> <<>>]
MinSample == 48
Constant(t) == t.n >= MinSample /\ \E k \in 1..Len(t.a) : t.a[k] # 0 \/ t.o[k] # 255

AllJ(e) == IF Prop = "C21" THEN JMem(e) ELSE
           UNION {Judge(e), JGroup(e),
                  IF Prop = "C07" THEN JNonce(e) \cup JFresh(e) ELSE {},
                  IF Prop = "C20" THEN JNonce(e) \cup JLeak(e, secrets_ \cup NewSecrets(e)) \cup JMask(e, masks_) ELSE {},
                  IF Prop = "C06" THEN JSalt(e) ELSE {}}
Mine(S) == {x \in S : x.p = Prop \/ Prop = "ALL"}

(* where an abstract model predicted the outcome, both specifications must agree on it: an event that     *)
(* deviates in nothing has the predicted outcome                                                           *)
Inconsistent(e) == /\ "model" \in DOMAIN e /\ e.res # "skip"
                   /\ Got(e) # e.model
                   /\ AllJ(e) = {}

Init == pos_ = 0 /\ base_ = <<>> /\ nonces_ = {} /\ secrets_ = {} /\ masks_ = {} /\ randoms_ = {} /\ tally_ = [seed |-> Zero, id |-> Zero, salt |-> Zero]

Step(e) ==
  /\ LET bad == Mine(AllJ(e)) IN
       \A b \in bad : PrintT(<<"REJECT", e.id, e.op, b.p, b.why>>)
  /\ Inconsistent(e) => PrintT(<<"INCONSISTENT", e.id>>)
  /\ base_' = IF Grouped(e) /\ ~Excused(e) /\ e.grp \notin DOMAIN base_ THEN (e.grp :> Outcome(e)) @@ base_ ELSE base_
  /\ secrets_' = IF Prop = "C20" THEN secrets_ \cup NewSecrets(e) ELSE secrets_
  /\ masks_' = IF Prop = "C20" THEN masks_ \cup Elems(Masks(e)) ELSE masks_
  /\ nonces_' = IF Prop \in {"C07", "C20"} THEN nonces_ \cup Uses(e) ELSE nonces_
  /\ LET v == IF Prop \in {"C06", "C07"} THEN Values(e) ELSE [ok |-> FALSE] IN
       /\ randoms_' = randoms_ \cup ValueSet(v)
       /\ tally_' = IF v.ok THEN [seed |-> Acc(tally_.seed, v.seed), id |-> Acc(tally_.id, v.id), salt |-> Acc(tally_.salt, v.salt)]
                   ELSE tally_

Next ==
  \/ /\ pos_ < Len(Trace)
     /\ pos_' = pos_ + 1
     /\ Step(Trace[pos_ + 1])
  \/ /\ pos_ = Len(Trace)
     /\ pos_' = pos_ + 1
     /\ UNCHANGED <<base_, nonces_, randoms_, tally_, secrets_, masks_>>
     /\ Prop = "C07" => \A f \in {"seed", "id", "salt"} :
          Constant(tally_[f]) => PrintT(<<"REJECT", -1, "gen", "C07", "a bit of a random field never varies">>)
     /\ PrintT(<<"TRACE-DONE", Len(Trace)>>)

Spec == Init /\ [][Next]_vars
(* every event of the trace was consumed *)
Complete == TLCGet("stats").diameter - 2 = Len(Trace)
=============================================================================

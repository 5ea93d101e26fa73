--------------------------------- MODULE Hist ---------------------------------
(* Histories of calls on shared values, by several threads, each call taking two   *)
(* steps (it begins; it ends), interleaved in any way.  The outcome of a call must  *)
(* be what the same call gives in isolation: a function of its arguments (Pure).    *)
(* Designs that keep hidden state, to show that the property can fail:               *)
(*   "memo"     remembers the outcome of verifying data under a key                   *)
(*   "scratch"  keeps the data of the call that began last                            *)
(*   "sticky"   once legacy signatures were allowed, they stay allowed                *)
(*   "poison"   a failed call makes the next signing call fail                        *)
(*   "pwcache"  remembers that a box was opened                                       *)
(*   "alias"    opening a box uses it up for its clones                               *)
(*   "left"     what was read before a failure is taken for the start of the next data *)
(*   "limit"    refuses after two failures in a row                                   *)
(*   "ration"   refuses after two calls of a kind                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, MaxCalls,      \* calls of each thread
          Alphabet,               \* "small" or "full"
          Design, Emit

Keys == {"A", "B"}
Data == {"d", "e"}
(* signatures everybody has: by whom, over what, which tag, and what is wrong with them *)
SharedSigs == [by : Keys, over : {"d"}, tag : {"pre", "leg"}, flaw : {"no", "sig", "comment", "bare"}]
Own == [by : {"own"}, over : {"own"}, tag : {"own"}, flaw : {"no"}]       \* the last signature the thread made
Secrets == {"A", "B", "sealed", "damaged"}
Boxes == {"enc", "plain"}

Verify == [op : {"verify"}, pk : Keys, sig : SharedSigs \cup Own, data : Data, legacy : BOOLEAN, cut : BOOLEAN]
SignC  == [op : {"sign"}, sk : Secrets, pk : Keys \cup {"none"}, data : Data, cut : BOOLEAN]
OpenC  == [op : {"open"}, box : Boxes, how : {"right", "wrong", "plain"}]
Other  == [op : {"gen"}, kind : {"plain"}] \cup [op : {"writefail", "rngfail"}, kind : {"plain"}] \cup
          [op : {"load"}, what : {"sig", "pk", "sk"}, good : BOOLEAN] \cup
          [op : {"store"}, what : {"sig", "pk", "sk", "bones"}] \cup [op : {"derive"}, sk : {"A", "B"}] \cup
          [op : {"clone"}, what : {"pk", "sk", "sig"}] \cup [op : {"drop"}, what : {"pk", "sk", "sig"}]
Calls == IF Alphabet = "full" THEN Verify \cup SignC \cup OpenC \cup Other
         ELSE {c \in Verify : c.pk = "A" /\ c.sig.by \in {"A", "own"} /\ c.sig.flaw \in {"no", "sig"} /\ (c.cut => c.sig.flaw = "no" /\ c.data = "d" /\ c.legacy)} \cup
              {c \in SignC : c.sk \in {"A", "sealed"} /\ c.pk # "B"} \cup OpenC
(* drawn evenly by kind of call, not by call *)
Kinds == {"verify", "sign", "open", "load", "store", "gen", "writefail", "rngfail", "derive", "clone", "drop"}

VARIABLES run, left, own, hid, hist, clock
vars == <<run, left, own, hid, hist, clock>>
Idle == [op |-> "idle"]
NoOwn == [by |-> "none", over |-> "none", tag |-> "pre", flaw |-> "no"]

Init == /\ run = [t \in Threads |-> Idle] /\ left = [t \in Threads |-> MaxCalls] /\ own = [t \in Threads |-> NoOwn]
        /\ hid = [memo |-> {}, scratch |-> "none", legacy |-> FALSE, bad |-> FALSE, opened |-> {}, cut |-> FALSE, fails |-> 0, count |-> [k \in Kinds |-> 0]]
        /\ hist = <<>> /\ clock = 0

(* -------------------------------------------------- what a call gives in isolation *)
SigOK(pk, s, d, legacy) ==
  /\ s.by = pk /\ s.over = d /\ (s.tag = "pre" \/ legacy)
  /\ s.flaw \notin {"sig", "comment"}
Pure(c) ==
  CASE c.op = "verify" -> IF SigOK(c.pk, c.sig, c.data, c.legacy) /\ ~c.cut THEN "ok" ELSE "err"
    [] c.op = "sign"   -> IF c.sk \in Keys /\ c.pk \in {"none", c.sk} /\ ~c.cut THEN "ok" ELSE "err"
    [] c.op = "open"   -> IF (c.box = "enc" /\ c.how = "right") \/ (c.box = "plain" /\ c.how = "plain") THEN "ok" ELSE "err"
    [] c.op = "load"   -> IF c.good THEN "ok" ELSE "err"
    [] c.op \in {"writefail", "rngfail"} -> "err"
    [] OTHER           -> "ok"

Outcome(c) ==
  CASE Design = "memo" /\ c.op = "verify" /\ (\E m \in hid.memo : m[1] = <<c.pk, c.data>>) ->
         (CHOOSE m \in hid.memo : m[1] = <<c.pk, c.data>>)[2]
    [] Design = "scratch" /\ c.op = "verify" -> Pure([c EXCEPT !.data = hid.scratch])
    [] Design = "sticky" /\ c.op = "verify" -> Pure([c EXCEPT !.legacy = hid.legacy])
    [] Design = "poison" /\ c.op = "sign" /\ hid.bad -> "err"
    [] Design = "pwcache" /\ c.op = "open" /\ c.box \in hid.opened -> "ok"
    [] Design = "alias" /\ c.op = "open" /\ c.box \in hid.opened -> "err"
    [] Design = "left" /\ c.op \in {"verify", "sign"} /\ hid.cut -> IF c.op = "verify" THEN "err" ELSE Pure(c)
    [] Design = "limit" /\ hid.fails >= 2 -> "err"
    [] Design = "ration" /\ hid.count[c.op] >= 2 -> "err"
    [] OTHER -> Pure(c)

Begin(t, c) ==
  /\ run[t] = Idle /\ left[t] > 0
  /\ LET r == IF c.op = "verify" /\ c.sig.by = "own" THEN [c EXCEPT !.sig = own[t]] ELSE c IN
     /\ run' = [run EXCEPT ![t] = [op |-> "running", call |-> r, asked |-> c, at |-> clock]]
     /\ hid' = [hid EXCEPT !.scratch = IF r.op \in {"verify", "sign"} THEN r.data ELSE @,
                           !.legacy = @ \/ (r.op = "verify" /\ r.legacy)]
  /\ left' = [left EXCEPT ![t] = @ - 1] /\ clock' = clock + 1
  /\ UNCHANGED <<own, hist>>
End(t) ==
  /\ run[t] # Idle
  /\ LET c == run[t].call
         o == Outcome(c) IN
     /\ hist' = Append(hist, [t |-> t, call |-> run[t].asked, real |-> c, out |-> o, b |-> run[t].at, e |-> clock])
     /\ own' = IF c.op = "sign" /\ o = "ok" THEN [own EXCEPT ![t] = [by |-> c.sk, over |-> c.data, tag |-> "pre", flaw |-> "no"]]
               ELSE IF c.op = "sign" THEN [own EXCEPT ![t] = NoOwn] ELSE own
     /\ hid' = [hid EXCEPT !.memo = IF c.op = "verify" THEN {m \in @ : m[1] # <<c.pk, c.data>>} \cup {<<<<c.pk, c.data>>, o>>} ELSE @,
                           !.bad = o = "err",
                           !.cut = Design = "left" /\ c.op \in {"verify", "sign"} /\ c.cut,
                           !.fails = IF Design # "limit" \/ o = "ok" THEN 0 ELSE @ + 1,
                           !.count[c.op] = IF Design = "ration" THEN @ + 1 ELSE 0,
                           !.opened = IF c.op = "open" /\ o = "ok" THEN @ \cup {c.box} ELSE @]
  /\ run' = [run EXCEPT ![t] = Idle] /\ clock' = clock + 1 /\ UNCHANGED left
Next == \E t \in Threads :
          \/ \E k \in Kinds : \E c \in {x \in Calls : x.op = k} : Begin(t, c)
          \/ End(t)
(* for simulation: one call of each kind at most, so that the kinds come equally often *)
NextSim == \E t \in Threads :
          \/ \E k \in Kinds : LET S == {x \in Calls : x.op = k} IN S # {} /\ Begin(t, RandomElement(S))
          \/ End(t)
Spec == Init /\ [][Next]_vars
SpecSim == Init /\ [][NextSim]_vars

(* C18 *)
OutcomePure == \A i \in DOMAIN hist : hist[i].out = Pure(hist[i].real)
Over == \A t \in Threads : run[t] = Idle /\ left[t] = 0
Printed == Emit /\ Over => PrintT("@@" \o ToJson(hist))
=============================================================================

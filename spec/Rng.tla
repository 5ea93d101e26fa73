--------------------------------- MODULE Rng ---------------------------------
(* Where secrets come from.  Operations draw values from a generator that may be   *)
(* sound (a new value at every draw), stuck (always the same value) or failing     *)
(* (from the k-th draw of an operation on).  A signature nonce is a function of    *)
(* the key, of the message, and of a drawn value:                                   *)
(*   Design = "hedged"         H(drawn, key, message)     this library              *)
(*   Design = "deterministic"  H(key, message)            RFC 8032                  *)
(*   Design = "drawn"          the drawn value alone      unsafe when stuck: used   *)
(*                             to check that the property can fail                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOps, Design, Emit

Messages == {"m1", "m2"}
Comments == {"t1", "t2"}
Modes == [kind : {"sound"}, k : {0}] \cup [kind : {"stuck"}, k : {0}] \cup [kind : {"failing"}, k : 1..3]

VARIABLES n,        \* draws so far
          keys,     \* keys made: [seed, id, salt]
          uses,     \* nonces used: [key, nonce, msg]
          hist
vars == <<n, keys, uses, hist>>

Value(mode, i) == IF mode.kind = "stuck" THEN <<"stuck">> ELSE <<"draw", i>>
Fails(mode, d) == mode.kind = "failing" /\ mode.k <= d
Needs(op) == CASE op = "gen" -> 2 [] op = "genenc" -> 3 [] op = "sign" -> IF Design = "deterministic" THEN 0 ELSE 2

Nonce(k, v, m) == CASE Design = "hedged" -> <<"H", v, k, m>>
                    [] Design = "deterministic" -> <<"H", k, m>>
                    [] Design = "drawn" -> <<"raw", v>>

Log(op, mode, ok, a, b) == hist' = Append(hist, [op |-> op, mode |-> mode.kind, k |-> mode.k, ok |-> ok, m |-> a, t |-> b])

Gen(op, mode) ==
  /\ n' = n + Needs(op)
  /\ IF Fails(mode, Needs(op)) THEN UNCHANGED keys
     ELSE keys' = keys \cup {[seed |-> <<Value(mode, n + 1), Len(hist)>>, id |-> <<Value(mode, n + 2), Len(hist)>>,
                              salt |-> IF op = "gen" THEN <<>> ELSE <<Value(mode, n + 3), Len(hist)>>,
                              sound |-> mode.kind # "stuck"]}
  /\ Log(op, mode, ~Fails(mode, Needs(op)), "", "")
  /\ UNCHANGED uses

(* one call makes two signatures: over the data, and over that signature and the comment *)
Sign(mode, m, t) ==
  /\ n' = n + Needs("sign")
  /\ IF Fails(mode, Needs("sign")) THEN UNCHANGED uses
     ELSE LET d  == <<"data", m>>
              n1 == Nonce("k", Value(mode, n + 1), d)
              g  == <<"global", <<n1, d>>, t>>
              n2 == Nonce("k", Value(mode, n + 2), g)
          IN uses' = uses \cup {[nonce |-> n1, msg |-> d], [nonce |-> n2, msg |-> g]}
  /\ Log("sign", mode, ~Fails(mode, Needs("sign")), m, t)
  /\ UNCHANGED keys

Init == n = 0 /\ keys = {} /\ uses = {} /\ hist = <<>>
Next == /\ Len(hist) < MaxOps
        /\ \E mode \in Modes : \/ \E op \in {"gen", "genenc"} : Gen(op, mode)
                               \/ \E m \in Messages, t \in Comments : Sign(mode, m, t)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------- properties *)
NonceUnique == \A u \in uses, w \in uses : u.nonce = w.nonce => u.msg = w.msg
(* with a sound generator no value is shared, within a key or between keys *)
Parts(k) == {k.seed[1], k.id[1]} \cup (IF k.salt = <<>> THEN {} ELSE {k.salt[1]})
AllFresh == /\ \A k \in keys : k.sound => Cardinality(Parts(k)) = IF k.salt = <<>> THEN 2 ELSE 3
            /\ \A a \in keys, b \in keys : a # b /\ a.sound /\ b.sound => Parts(a) \cap Parts(b) = {}
FailClosed == \A i \in DOMAIN hist : hist[i].mode = "failing" /\ hist[i].k <= Needs(hist[i].op) => ~hist[i].ok
Counted == Cardinality(keys) = Cardinality({i \in DOMAIN hist : hist[i].op # "sign" /\ hist[i].ok})

Printed == Emit /\ Len(hist) = MaxOps => PrintT("@@" \o ToJson(hist))
=============================================================================

------------------------------- MODULE SystemInd -------------------------------
(* System.tla for behaviours of any length and any number of slots.  Ind says of each slot by itself what can be in it;  *)
(* it holds to begin with (IndFirst, checked along all short behaviours of System.tla) and every call keeps it: no call  *)
(* reads more than two slots, so it is enough to start from every state in which at most two slots hold anything Ind     *)
(* allows, and to take one step.  The properties of System.tla are checked on that step, and so follow from Ind alone.    *)
EXTENDS System
Ks == {"A", "B", "Z", "F1"}
Ids == {"A", "B", "F1"}
(* signatures made so far, in the states to start from: by a key that was there and by one generated here *)
Some == {[n |-> 1, k |-> "A", d |-> "e", tc |-> "y"], [n |-> 2, k |-> "F1", d |-> "d", tc |-> "x"]}
OwnS(m) == [k |-> m.k, over |-> m.d, tag |-> "pre", n |-> m.n]
GivenS == {Pool[8].v.s, Pool[9].v.s, Pool[10].v.s}
PkOK(v) == v.k \in Ks \cup {"F2", "F3"} /\ v.f \subseteq {"id", "key"}
SkOK(v, op) == /\ v.id = v.k /\ v.f \subseteq {"id", "sk", "chk"} /\ v.label \in {"no", "sc"} /\ v.pw \in {"none", "p", "q"}
               /\ (v.locked => v.pw # "none") /\ (v.pw # "none" /\ ~v.locked => v.k \in op)
SigOK(v, made) == /\ v.s \in GivenS \cup {OwnS(m) : m \in made} /\ v.id = v.s.k
                  /\ v.tag \in {"pre", "leg"} /\ v.f \subseteq {"id", "sig", "tc", "gsig"}
                  \* the global signature is that of one that was made, perhaps of another one: with that one's comment
                  /\ \E m \in made \cup Given : v.g = [k |-> m.k, n |-> m.n, tc |-> m.tc]
                  /\ v.tc \in Comments \cup {"x", ""}
ValueOK(v, made, op) == CASE v.of = "pk" -> PkOK(v) [] v.of = "sk" -> SkOK(v, op) [] v.of = "sig" -> SigOK(v, made) [] OTHER -> FALSE
Ind == \A x \in DOMAIN slot : LET v == slot[x] IN
  \/ v.of = "none"
  \/ x \in P /\ v.of = "pk" /\ PkOK(v)
  \/ x \in S /\ v.of = "sk" /\ SkOK(v, opened)
  \/ x \in G /\ v.of = "sig" /\ SigOK(v, sigs)
  \/ x \in T /\ v.of = "text" /\ ValueOK(v.v, sigs, opened) /\ v.form \in {"box", "b64", "bytes", "bones"}
     /\ (v.v.of = "sig" <=> v.form = "bones" \/ (v.form = "box" /\ v.v.of = "sig"))
     /\ (v.v.of = "sig" => (v.form = "bones" <=> v.v.bare))

(* everything Ind allows *)
Pks == [of : {"pk"}, k : Ks, id : Ids, f : SUBSET {"id", "key"}]
Sks(op) == {v \in [of : {"sk"}, k : Ks \ {"Z"}, id : Ids, label : {"no", "sc"}, locked : BOOLEAN, pw : {"none", "p", "q"}, f : SUBSET {"id", "sk", "chk"}] : SkOK(v, op)}
Sigs == LET sg == {[of |-> "sig", id |-> s.k, tag |-> t, s |-> s, tc |-> c, g |-> [k |-> m.k, n |-> m.n, tc |-> m.tc], bare |-> FALSE, f |-> f] :
                     s \in GivenS \cup {OwnS(m) : m \in Some}, t \in {"pre", "leg"}, c \in Comments \cup {"x", ""}, m \in Some \cup Given, f \in SUBSET {"id", "sig", "tc", "gsig"}}
        IN  sg \cup {[v EXCEPT !.bare = TRUE, !.tc = "", !.f = @ \ {"tc", "gsig"}] : v \in sg}
Texts(op) == {Text(f, v) : f \in {"box", "b64", "bytes"}, v \in Pks} \cup {Text(f, v) : f \in {"box", "bytes"}, v \in Sks(op)}
             \cup {Text(IF v.bare THEN "bones" ELSE "box", v) : v \in Sigs}
In(x, op) == IF x \in P THEN Pks ELSE IF x \in S THEN Sks(op) ELSE IF x \in G THEN Sigs ELSE Texts(op)
(* what a splice carries over with the second line it does not look at: one case stands for all *)
Boxes == {Text("box", v) : v \in {w \in Sigs : ~w.bare /\ w.tag = "pre" /\ w.f \subseteq {"tc", "gsig"}}}
Empty == [x \in P \cup S \cup G \cup T |-> None]
T1 == CHOOSE t \in T : TRUE
T2 == CHOOSE t \in T : t # T1
P1 == CHOOSE p \in P : TRUE
S1 == CHOOSE s \in S : TRUE
G1 == CHOOSE g \in G : TRUE
IndInit ==
  /\ kind \in {"one", "keys", "verify", "splice"} /\ steps = 0 /\ sigs = Some /\ gens = 1 /\ last = Nothing /\ hist = <<>>
  /\ opened \in IF kind = "one" THEN SUBSET {"A", "F1"} ELSE {{"A", "F1"}}
  /\ CASE kind = "one"    -> \E x \in {P1, S1, G1, T1} : \E v \in In(x, opened) : slot = [Empty EXCEPT ![x] = v]
       [] kind = "keys"   -> \E p \in Pks, s \in Sks(opened) : slot = [Empty EXCEPT ![P1] = p, ![S1] = s]
       [] kind = "verify" -> \E p \in Pks, g \in Sigs : slot = [Empty EXCEPT ![P1] = p, ![G1] = g]
       [] OTHER           -> \E v \in Boxes, w \in Boxes : slot = [Empty EXCEPT ![T1] = v, ![T2] = w]
IndNext == /\ steps = 0
           /\ CASE kind = "one" -> Calls [] kind = "keys" -> Sign [] kind = "verify" -> Verify [] OTHER -> Splice
IndSpec == IndInit /\ [][IndNext]_vars
=============================================================================

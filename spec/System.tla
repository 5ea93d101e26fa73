-------------------------------- MODULE System --------------------------------
(* The whole library as one state machine: slots for public keys, secret keys,      *)
(* signatures and stored texts, and every function between them.  Long behaviours   *)
(* are drawn from it (TLC's simulation) and replayed; each call has a predicted      *)
(* outcome, on which this model and the judgement of the concrete bytes must agree.  *)
(* Stored texts may be altered (a bit of a field; a second alteration of the same    *)
(* field undoes the first) and spliced.                                              *)
(* Designs that must fail: "nocomment" does not check the comment, "nochk" opens     *)
(* keys without looking at the checksum, "anytag" tries either reading of the data,  *)
(* "forgiving" opens a key with either kind of function, "bykeyid" signs for a       *)
(* public key of the same id.                                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS P, S, G, T,             \* the slots
          MaxSteps, MaxSigs, MaxGen,
          Data, Comments,
          Warm,                   \* the slots are in use to begin with
          Design, Emit

None == [of |-> "none"]
PkV(k, id) == [of |-> "pk", k |-> k, id |-> id, f |-> {}]
SkV(k, label, locked, pw) == [of |-> "sk", k |-> k, id |-> k, label |-> label, locked |-> locked, pw |-> pw, f |-> {}]
(* a signature: over which data, read as what the tag said; which one of all that were made; its comment; what *)
(* the global signature was made for                                                                           *)
SigV(k, over, tag, n, tc, bare) ==
  [of |-> "sig", id |-> k, tag |-> tag, s |-> [k |-> k, over |-> over, tag |-> tag, n |-> n], tc |-> tc,
   g |-> [k |-> k, n |-> n, tc |-> tc], bare |-> bare, f |-> {}]
Text(form, v) == [of |-> "text", form |-> form, v |-> v]

(* what there is to begin with, made by others: the last of them are not reached by the library itself *)
Pool == << Text("box", PkV("A", "A")), Text("box", PkV("B", "B")), Text("bytes", PkV("A", "B")), Text("b64", PkV("Z", "A")),
           Text("box", SkV("A", "no", FALSE, "none")), Text("box", SkV("B", "sc", TRUE, "p")), Text("bytes", SkV("A", "sc", TRUE, "q")),
           Text("box", SigV("A", "d", "leg", 101, "x", FALSE)), Text("box", SigV("B", "d", "pre", 102, "x", FALSE)),
           Text("bones", SigV("A", "d", "leg", 103, "", TRUE)) >>

VARIABLES slot, kind, steps, sigs, gens, last, hist, opened
vars == <<slot, kind, steps, sigs, gens, last, hist, opened>>
view == <<slot, steps, sigs, gens, last, opened>>
Nothing == [op |-> "none"]
InUse(x) == CASE x \in P -> PkV("A", "A") [] x \in S -> SkV("A", "no", FALSE, "none") [] x \in G -> Pool[8].v
              [] OTHER -> IF x = "t1" THEN Pool[9] ELSE Pool[6]
Init == /\ slot = [x \in P \cup S \cup G \cup T |-> IF Warm THEN InUse(x) ELSE None] /\ kind = "" /\ steps = 0 /\ sigs = {} /\ gens = 0
        /\ last = Nothing /\ hist = <<>> /\ opened = {}

(* ------------------------------------------------------------------ what is decided *)
Usable(k) == ~k.locked /\ k.f \cap {"id", "sk", "chk"} = {}
SameId(p, g) == p.id = g.id /\ ("id" \in p.f <=> "id" \in g.f)
Primary(p, g, d, tag) == /\ g.s.k = p.k /\ "key" \notin p.f /\ p.k # "Z" /\ SameId(p, g)
                         /\ "sig" \notin g.f /\ g.s.over = d /\ g.s.tag = tag
CommentOK(p, g) == g.bare \/ (/\ g.g.k = p.k /\ g.g.n = g.s.n /\ g.g.tc = g.tc /\ "tc" \notin g.f /\ "gsig" \notin g.f)
Accepts(p, g, d, legacy) ==
  /\ IF Design = "anytag" THEN Primary(p, g, d, "pre") \/ Primary(p, g, d, "leg") ELSE Primary(p, g, d, g.tag) /\ (g.tag = "leg" => legacy)
  /\ Design = "nocomment" \/ CommentOK(p, g)
(* how: without password, or with "p", "q" *)
Opens(k, how) ==
  /\ IF how = "none" THEN k.label = "no" \/ (Design = "forgiving" /\ ~k.locked) ELSE k.label = "sc" /\ k.locked /\ k.pw = how
  /\ Design = "nochk" \/ Usable([k EXCEPT !.locked = IF how = "none" THEN @ ELSE FALSE])
Opened(k, how) == IF how = "none" THEN k ELSE [k EXCEPT !.locked = FALSE]
Matches(k, p) == IF Design = "bykeyid" THEN p.id = k.id ELSE p.k = k.k /\ "key" \notin p.f

(* ---------------------------------------------------------------------------- calls *)
Done(e) == /\ steps' = steps + 1 /\ last' = e /\ kind' = ""
           /\ hist' = IF Emit THEN Append(hist, e) ELSE hist
Put(s, v) == slot' = [slot EXCEPT ![s] = v]
Keep == UNCHANGED slot
Held(SS, of) == {x \in SS : slot[x].of = of}
Same == UNCHANGED <<sigs, gens, opened>>

Take == \E t \in T, i \in DOMAIN Pool :
  Put(t, Pool[i]) /\ Same /\ Done([op |-> "take", to |-> t, i |-> i, ok |-> TRUE])

Load(of, to, forms) == \E t \in Held(T, "text") :
  LET x == slot[t] IN
  /\ x.form \in forms
  /\ x.v.of # of => x.form = "box"              \* bytes say nothing of what they are
  /\ \E c \in to :
       /\ IF x.v.of = of THEN Put(c, x.v) ELSE Keep
       /\ Same /\ Done([op |-> "load", of |-> of, from |-> t, form |-> x.form, to |-> c, ok |-> x.v.of = of])
LoadPk  == Load("pk", P, {"box", "b64", "bytes"})
LoadSig == Load("sig", G, {"box", "bones"})
LoadSk  == Load("sk", S, {"bytes"})
OpenSk == \E t \in Held(T, "text"), c \in S, how \in {"none", "p", "q"} :
  LET x == slot[t] IN
  /\ x.form = "box"
  /\ LET ok == x.v.of = "sk" /\ Opens(x.v, how) IN
     /\ IF ok THEN Put(c, Opened(x.v, how)) /\ opened' = opened \cup {x.v.k} ELSE Keep /\ UNCHANGED opened
     /\ UNCHANGED <<sigs, gens>>
     /\ Done([op |-> "open", from |-> t, how |-> how, to |-> c, ok |-> ok])
Store == \E x \in Held(P, "pk") \cup Held(S, "sk") \cup Held(G, "sig"), t \in T :
  \E form \in CASE slot[x].of = "pk" -> {"box", "b64", "bytes"} [] slot[x].of = "sk" -> {"box", "bytes"}
                [] OTHER -> IF slot[x].bare THEN {"bones"} ELSE {"box", "bones"} :
    /\ Put(t, Text(form, IF form = "bones" THEN [slot[x] EXCEPT !.bare = TRUE, !.tc = "", !.f = @ \ {"tc", "gsig"}] ELSE slot[x]))
    /\ Same /\ Done([op |-> "store", of |-> slot[x].of, from |-> x, form |-> form, to |-> t, ok |-> TRUE])
Bones == \E x \in Held(G, "sig"), c \in G :
  /\ Put(c, [slot[x] EXCEPT !.bare = TRUE, !.tc = "", !.f = @ \ {"tc", "gsig"}])
  /\ Same /\ Done([op |-> "bones", from |-> x, to |-> c, ok |-> TRUE])
Derive == \E x \in Held(S, "sk"), c \in P :
  /\ Usable(slot[x])
  /\ Put(c, PkV(slot[x].k, slot[x].id)) /\ Same /\ Done([op |-> "derive", from |-> x, to |-> c, ok |-> TRUE])
Gen == \E c \in P, d \in S, enc \in {"plain", "p"}, w \in BOOLEAN :
  LET k == IF gens = 0 THEN "F1" ELSE IF gens = 1 THEN "F2" ELSE "F3" IN
  /\ gens < MaxGen /\ gens' = gens + 1 /\ (enc = "p" => gens = 0)
  /\ slot' = [slot EXCEPT ![c] = PkV(k, k), ![d] = IF enc = "p" THEN SkV(k, "sc", TRUE, "p") ELSE SkV(k, "no", FALSE, "none")]
  /\ UNCHANGED <<sigs, opened>>
  /\ Done([op |-> "gen", pk |-> c, sk |-> d, enc |-> enc, write |-> w, ok |-> TRUE])
Sign == \E x \in Held(S, "sk"), p \in Held(P, "pk") \cup {"none"}, d \in Data, tc \in Comments, cut \in BOOLEAN, c \in G :
  LET k == slot[x]
      n == Cardinality(sigs) + 1
      ok == Usable(k) /\ ~cut /\ (p # "none" => Matches(k, slot[p])) IN
  /\ n <= MaxSigs
  /\ IF ok THEN Put(c, SigV(k.k, d, "pre", n, tc, FALSE)) /\ sigs' = sigs \cup {[n |-> n, k |-> k.k, d |-> d, tc |-> tc]} ELSE Keep /\ UNCHANGED sigs
  /\ UNCHANGED <<gens, opened>>
  /\ Done([op |-> "sign", sk |-> x, pk |-> p, data |-> d, tc |-> tc, cut |-> cut, to |-> c, ok |-> ok])
Verify == \E p \in Held(P, "pk"), g \in Held(G, "sig"), d \in Data, legacy \in BOOLEAN, cut \in BOOLEAN :
  /\ Keep /\ Same
  /\ Done([op |-> "verify", pk |-> p, sig |-> g, data |-> d, legacy |-> legacy, cut |-> cut, ok |-> ~cut /\ Accepts(slot[p], slot[g], d, legacy)])
Fields(v, form) == CASE v.of = "pk" -> {"id", "key"} [] v.of = "sk" -> {"id", "sk", "chk", "label"}
                     [] OTHER -> {"id", "sig", "tag"} \cup (IF form = "box" THEN {"tc", "gsig"} ELSE {})
Toggle(S0, x) == IF x \in S0 THEN S0 \ {x} ELSE S0 \cup {x}
Edit == \E t \in Held(T, "text"), u \in T :
  LET x == slot[t] IN
  \E f \in Fields(x.v, x.form) :
    /\ Put(u, [x EXCEPT !.v = CASE f = "label" -> [@ EXCEPT !.label = IF @ = "no" THEN "sc" ELSE "no"]
                                [] f = "tag" -> [@ EXCEPT !.tag = IF @ = "pre" THEN "leg" ELSE "pre"]
                                [] OTHER -> [@ EXCEPT !.f = Toggle(@, f)]])
    /\ Same /\ Done([op |-> "edit", from |-> t, to |-> u, of |-> x.v.of, form |-> x.form, field |-> f, ok |-> TRUE])
(* the first lines of one box, the last ones of another *)
Splice == \E t \in Held(T, "text"), w \in Held(T, "text"), u \in T, n \in {1, 2, 3} :
  LET a == slot[t]
      b == slot[w] IN
  /\ t # w /\ a.form = "box" /\ b.form = "box" /\ a.v.of = "sig" /\ b.v.of = "sig"
  /\ Put(u, Text("box", CASE n = 1 -> b.v
       [] n = 2 -> [a.v EXCEPT !.tc = b.v.tc, !.g = b.v.g, !.f = (@ \ {"tc", "gsig"}) \cup (b.v.f \cap {"tc", "gsig"})]
       [] OTHER -> [a.v EXCEPT !.g = b.v.g, !.f = (@ \ {"gsig"}) \cup (b.v.f \cap {"gsig"})]))
  /\ Same /\ Done([op |-> "splice", from |-> t, with |-> w, lines |-> n, to |-> u, ok |-> TRUE])
Copy == \E SS \in {P, S, G, T} : \E x \in SS, c \in SS :
  /\ x # c /\ slot[x].of # "none" /\ Put(c, slot[x]) /\ Same
  /\ Done([op |-> "copy", from |-> x, to |-> c, ok |-> TRUE])
Drop == \E x \in P \cup S \cup G :
  slot[x].of # "none" /\ Put(x, None) /\ Same /\ Done([op |-> "drop", from |-> x, ok |-> TRUE])
Equal == \E SS \in {P, S} : \E x \in SS, c \in SS :
  slot[x].of # "none" /\ slot[c].of # "none" /\ Keep /\ Same /\ Done([op |-> "eq", of |-> slot[x].of, a |-> x, b |-> c, ok |-> TRUE])

Calls == Take \/ LoadPk \/ LoadSig \/ LoadSk \/ OpenSk \/ Store \/ Bones \/ Derive \/ Gen \/ Sign \/ Verify \/ Edit \/ Splice \/ Copy \/ Drop \/ Equal
Next == steps < MaxSteps /\ kind' = "" /\ Calls
Spec == Init /\ [][Next]_vars

(* drawn by kind of call first, so that those with few arguments are not rare, nor those that succeed *)
Kinds == {"take", "take+", "pk", "sig", "sig+", "sk", "open", "open!", "store", "store+", "bones", "derive", "gen", "sign", "sign!", "sign!!",
          "verify", "verify!", "verify!!", "edit", "splice", "copy", "drop", "eq"}
Of(k) == CASE k \in {"take", "take+"} -> Take [] k = "pk" -> LoadPk [] k \in {"sig", "sig+"} -> LoadSig [] k = "sk" -> LoadSk
           [] k = "open" -> OpenSk [] k = "open!" -> OpenSk /\ last'.ok
           [] k \in {"store", "store+"} -> Store [] k = "bones" -> Bones [] k = "derive" -> Derive [] k = "gen" -> Gen
           [] k = "sign" -> Sign [] k \in {"sign!", "sign!!"} -> Sign /\ last'.ok
           [] k = "verify" -> Verify [] k \in {"verify!", "verify!!"} -> Verify /\ last'.ok
           [] k = "edit" -> Edit [] k = "splice" -> Splice [] k = "copy" -> Copy [] k = "drop" -> Drop [] OTHER -> Equal
Rest == UNCHANGED <<slot, steps, sigs, gens, last, hist, opened>>
Draw == \/ steps < MaxSteps /\ kind = "" /\ kind' \in Kinds /\ Rest
        \/ steps < MaxSteps /\ kind # "" /\ (Of(kind) \/ (~ENABLED Of(kind) /\ kind' = "" /\ Rest))
        \/ steps = MaxSteps /\ kind = "" /\ kind' = "end" /\ Rest
WalkSpec == Init /\ [][Draw]_vars

(* ----------------------------------------------------------------------- properties *)
Given == {[n |-> 101, k |-> "A", d |-> "d", tc |-> "x"], [n |-> 102, k |-> "B", d |-> "d", tc |-> "x"], [n |-> 103, k |-> "A", d |-> "d", tc |-> ""]}
Verified == last.op = "verify" /\ last.ok
(* what verifies was signed, as these data; a comment that verifies was signed along with it *)
NoForgery == Verified => LET g == slot[last.sig]
                             p == slot[last.pk] IN
  \E s \in sigs \cup Given : /\ s.k = p.k /\ s.d = last.data /\ s.n = g.s.n /\ g.id = p.id
                             /\ g.bare \/ (s.tc = g.tc /\ "tc" \notin g.f)
LegacyOnRequest == Verified /\ ~last.legacy => slot[last.sig].tag = "pre" /\ slot[last.sig].s.tag = "pre"
NothingCut == last.op \in {"sign", "verify"} /\ last.cut => ~last.ok
(* a key that a box gave is a key as it was made, opened as its label says *)
WholeKeys == last.op = "open" /\ last.ok =>
  LET k == slot[last.to] IN Usable(k) /\ k.id = k.k /\ (k.label = "no" <=> last.how = "none")
(* what was sealed is in the clear only where it was opened *)
Sealed == \A x \in DOMAIN slot : LET v == IF slot[x].of = "text" THEN slot[x].v ELSE slot[x] IN
  v.of = "sk" => (v.pw # "none" /\ ~v.locked => v.k \in opened)
SignsAsKey == last.op = "sign" /\ last.ok => LET g == slot[last.to] IN
  /\ g.tag = "pre" /\ g.id = g.s.k /\ (last.pk # "none" => Accepts(PkV(slot[last.pk].k, g.id), g, last.data, FALSE))
TypeOK == \A x \in DOMAIN slot : slot[x].of \in {"none", "pk", "sk", "sig", "text"}

Printed == Emit /\ steps = MaxSteps /\ kind = "end" => PrintT("@@" \o ToJson(hist))
=============================================================================

-------------------------------- MODULE Prompt --------------------------------
(* Passwords typed at a terminal.  Generating a key asks twice, opening one asks     *)
(* once.  What is typed is an entry, or no entry at all (end of input, an            *)
(* interruption, no terminal).                                                        *)
(* Designs: "sound", and, to show that the properties can fail:                        *)
(*   "once"       asks once                                                            *)
(*   "prefix"     compares as far as both entries go                                   *)
(*   "fold"       compares without regard to case                                      *)
(*   "trim"       drops white space around the entry                                   *)
(*   "eofempty"   takes an end of input for an empty entry                             *)
(*   "nolimit"    does not look at the length of an entry                              *)
(*   "chars"      limits the number of characters                                      *)
(*   "emptyfree"  does not ask again if the first entry is empty                       *)
(*   "echo"       the terminal shows what is typed                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Design, Emit

(* entries: name -> what it has in common with others *)
E(n, cmp, stem, len, chars) == [n |-> n, fold |-> cmp, stem |-> stem, len |-> len, chars |-> chars]
Limit == 3       \* stands for 1024
Entries == { E("empty", "", "", 0, 0), E("p", "p", "p", 1, 1), E("P", "p", "P", 1, 1), E("q", "q", "q", 1, 1), E("px", "px", "p", 2, 2),
             E("p-sp", "p-sp", "p", 2, 2), E("sp", "sp", "sp", 1, 1),
             E("max", "max", "max", 3, 3), E("max-mb", "max-mb", "max-mb", 3, 2), E("over", "over", "max", 4, 4), E("over-mb", "over-mb", "max-mb", 4, 3) }
Nothing == {"eof", "intr", "hup"}
Typed == {[k |-> "text", e |-> x] : x \in Entries} \cup {[k |-> n, e |-> E("", "", "", 0, 0)] : n \in Nothing}

VARIABLES op,        \* "gen", "genw", "open"
          made,      \* open: what the key was sealed with
          user,      \* what the user types, in order
          asked, seen, shown, pc, res, key
vars == <<op, made, user, asked, seen, shown, pc, res, key>>

Init == /\ op \in {"gen", "genw", "open"}
        /\ user \in {<<a, b>> : a \in Typed, b \in Typed}
        /\ made \in (IF op = "open" THEN {x \in Entries : x.len <= Limit} ELSE {CHOOSE x \in Entries : x.n = "p"})
        /\ op = "open" => user[2].k = "text" /\ user[2].e.n = "q"
        /\ asked = 0 /\ seen = <<>> /\ shown = FALSE /\ pc = "ask" /\ res = "none" /\ key = "none"

Finish(r, k) == pc' = "done" /\ res' = r /\ key' = k
Len1(x) == IF Design = "chars" THEN x.chars ELSE x.len
Fine(x) == Design = "nolimit" \/ Len1(x) <= Limit
Of(x) == IF Design = "trim" /\ x.n \in {"p-sp", "sp"} THEN IF x.n = "sp" THEN "empty" ELSE "p" ELSE x.n
Same(x, y) == CASE Design = "prefix" -> x.stem = y.stem \/ x.n = "empty" \/ y.n = "empty"
                [] Design = "fold"   -> x.fold = y.fold
                [] OTHER -> Of(x) = Of(y)
Wanted == IF op = "open" \/ Design = "once" \/ (Design = "emptyfree" /\ asked >= 1 /\ seen # <<>> /\ seen[1].n = "empty") THEN 1 ELSE 2

Ask == /\ pc = "ask" /\ asked < Wanted
       /\ LET t == user[asked + 1] IN
          /\ asked' = asked + 1
          /\ shown' = (shown \/ (Design = "echo" /\ t.k = "text" /\ t.e.n # "empty"))
          /\ IF t.k # "text" /\ ~(Design = "eofempty" /\ t.k = "eof") THEN Finish("err", "none") /\ UNCHANGED seen
             ELSE LET x == IF t.k = "text" THEN t.e ELSE E("empty", "", "", 0, 0) IN
                  IF ~Fine(x) THEN Finish("err", "none") /\ UNCHANGED seen
                  ELSE seen' = Append(seen, x) /\ UNCHANGED <<pc, res, key>>
       /\ UNCHANGED <<op, made, user>>
Decide == /\ pc = "ask" /\ asked = Wanted
          /\ IF op = "open" THEN IF Of(seen[1]) = made.n THEN Finish("ok", made.n) ELSE Finish("err", "none")
             ELSE IF Len(seen) = 2 /\ ~Same(seen[1], seen[2]) THEN Finish("err", "none")
             ELSE Finish("ok", Of(seen[1]))
          /\ UNCHANGED <<op, made, user, asked, seen, shown>>
Next == Ask \/ Decide
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* C19 *)
Text(t) == t.k = "text" /\ t.e.len <= Limit
Confirmed == /\ Text(user[1]) /\ Text(user[2]) /\ user[1].e = user[2].e
GenOnlyConfirmed == op # "open" /\ res = "ok" => Confirmed
GenAlways == pc = "done" /\ op # "open" /\ Confirmed => res = "ok"
SealedAsTyped == res = "ok" /\ op # "open" => key = user[1].e.n
OpenExactly == pc = "done" /\ op = "open" => (res = "ok") = (Text(user[1]) /\ user[1].e = made)
AskedTwice == res = "ok" /\ op # "open" => asked = 2
NotShown == ~shown
Ends == <>(pc = "done")
Name(t) == IF t.k = "text" THEN t.e.n ELSE t.k
Printed == Emit /\ pc = "done" =>
  PrintT("@@" \o ToJson([op |-> op, made |-> made.n, user |-> [i \in 1..asked |-> Name(user[i])], ok |-> res = "ok"]))
=============================================================================

--------------------------------- MODULE Keys ---------------------------------
(* The life of a secret key: made (plain or sealed under a password), stored,     *)
(* altered while stored, opened by either family of functions or reloaded as raw  *)
(* bytes, used, stored again.  The scrypt stream is a symbolic mask: a core read   *)
(* through another mask than the one it was sealed with is noise.                 *)
EXTENDS Terms, TLC, Json

CONSTANTS MaxAlter, Emit

Kinds     == {"plain", "enc"}
Passwords == {"p", "q", "empty"}

Core0(k)  == [id |-> <<"id", k>>, sk |-> <<"sk", k>>, chk |-> <<"chk", "Ed", <<"id", k>>, <<"sk", k>>>>]
Noise     == [id |-> <<"noise">>, sk |-> <<"noise">>, chk |-> <<"noise">>]
Clear     == <<"clear">>

SChecksum(a, id, sk) == <<"chk", a, id, sk>>
MaskOf(b, pw) == <<"mask", pw, b.salt, b.par>>
(* what an opening function sees of the core of stored key b *)
SUnmask(b, pw) ==
  IF b.par = "excessive" THEN [ok |-> FALSE]
  ELSE LET c == IF b.mask = MaskOf(b, pw) THEN b.core ELSE Noise
       IN [ok |-> TRUE, alg |-> b.alg, keynum |-> c.id, sk |-> c.sk, chk |-> c.chk]
SD(k, d, s) == FALSE
SC(k, s, c, g) == FALSE
C == INSTANCE Core WITH TagPrehashed <- "ED", TagLegacy <- "Ed", LabelNone <- "none", LabelScrypt <- "Sc",
       OverDigest <- SD, OverData <- SD, OverComment <- SC, Degenerate <- SDegenerate,
       Checksum <- SChecksum, Unmask <- SUnmask

VARIABLES kind, pw,      \* how the key was made
          box,           \* the stored key
          altered,       \* what was done to it while stored
          mem,           \* the key in memory, or None
          how,           \* how it was opened: <<family, password>>
          stage, log
vars == <<kind, pw, box, altered, mem, how, stage, log>>
None == [none |-> TRUE]

Init == /\ kind \in Kinds /\ pw \in (IF kind = "plain" THEN {"p"} ELSE Passwords)
        /\ box = [alg |-> "Ed", label |-> IF kind = "plain" THEN "none" ELSE "Sc", chkalg |-> "B2", salt |-> "s", par |-> "low",
                  core |-> Core0("k"), mask |-> IF kind = "plain" THEN Clear ELSE <<"mask", pw, "s", "low">>, tail |-> FALSE]
        /\ altered = {} /\ mem = None /\ how = <<>> /\ stage = "stored" /\ log = <<>>

(* what may happen to a stored key *)
Alterations == {"label-none", "label-Sc", "label-other", "alg", "chkalg", "salt", "par", "par-excessive",
                "id", "sk", "chk", "id-of-other", "core-of-other", "tail"}
Apply(a, b) ==
  CASE a = "label-none"    -> [b EXCEPT !.label = "none"]
    [] a = "label-Sc"      -> [b EXCEPT !.label = "Sc"]
    [] a = "label-other"   -> [b EXCEPT !.label = "other"]
    [] a = "alg"           -> [b EXCEPT !.alg = "other"]
    [] a = "chkalg"        -> [b EXCEPT !.chkalg = "other"]
    [] a = "salt"          -> [b EXCEPT !.salt = "other"]
    [] a = "par"           -> [b EXCEPT !.par = "other"]
    [] a = "par-excessive" -> [b EXCEPT !.par = "excessive"]
    \* flipping a bit of a masked field flips that bit of what is unmasked
    [] a = "id"            -> [b EXCEPT !.core.id = <<"flipped", @>>]
    [] a = "sk"            -> [b EXCEPT !.core.sk = <<"flipped", @>>]
    [] a = "chk"           -> [b EXCEPT !.core.chk = <<"flipped", @>>]
    \* parts of another stored key (same kind and password, other salt): in the clear they are that key's
    [] a = "id-of-other"   -> IF b.mask = Clear THEN [b EXCEPT !.core.id = Core0("other").id] ELSE [b EXCEPT !.core.id = <<"noise">>]
    [] a = "core-of-other" -> IF b.mask = Clear THEN [b EXCEPT !.core = Core0("other")] ELSE [b EXCEPT !.core = Noise]
    [] a = "tail"          -> [b EXCEPT !.tail = TRUE]
Group(a) == CASE a \in {"label-none", "label-Sc", "label-other"} -> "label"
              [] a \in {"par", "par-excessive"} -> "par"
              [] a \in {"id", "id-of-other", "core-of-other"} -> "id"
              [] OTHER -> a

Alter == /\ stage = "stored" /\ log = <<>> /\ Cardinality(altered) < MaxAlter
         /\ \E a \in Alterations :
              /\ \A x \in altered : Group(x) # Group(a)
              /\ ~(a = "core-of-other" /\ altered \cap {"sk", "chk"} # {})
              /\ ~(a \in {"sk", "chk"} /\ "core-of-other" \in altered)
              /\ Apply(a, box) # box
              /\ box' = Apply(a, box)
              /\ altered' = altered \cup {a}
         /\ UNCHANGED <<kind, pw, mem, how, stage, log>>

(* the stored bytes as they are: still sealed if they were *)
Raw(b) == LET c == IF b.mask = Clear THEN b.core ELSE Noise IN
          [alg |-> b.alg, label |-> b.label, salt |-> b.salt, par |-> b.par, keynum |-> c.id, sk |-> c.sk, chk |-> c.chk, mask |-> b.mask]
Lib(b, u) == [alg |-> b.alg, label |-> b.label, salt |-> b.salt, par |-> b.par, keynum |-> u.keynum, sk |-> u.sk, chk |-> u.chk, mask |-> Clear]

OpenPlain == /\ stage = "stored"
             /\ LET r == Raw(box) IN mem' = IF C!OpensPlain(r) THEN [r EXCEPT !.mask = Clear] ELSE None
             /\ how' = <<"plain", "">> /\ stage' = "opened"
             /\ log' = Append(log, [op |-> "plain", pw |-> "", ok |-> mem' # None])
             /\ UNCHANGED <<kind, pw, box, altered>>
OpenWith(p) == /\ stage = "stored"
               /\ mem' = IF C!OpensWith(box, p) THEN Lib(box, SUnmask(box, p)) ELSE None
               /\ how' = <<"with", p>> /\ stage' = "opened"
               /\ log' = Append(log, [op |-> "with", pw |-> p, ok |-> mem' # None])
               /\ UNCHANGED <<kind, pw, box, altered>>
Reload == /\ stage = "stored"
          /\ mem' = Raw(box)
          /\ how' = <<"bytes", "">> /\ stage' = "opened"
          /\ log' = Append(log, [op |-> "bytes", pw |-> "", ok |-> TRUE])
          /\ UNCHANGED <<kind, pw, box, altered>>
(* use: signing and deriving the public key; then back to a box and open that *)
Sign == /\ stage = "opened" /\ mem # None
        /\ stage' = "signed"
        /\ log' = Append(log, [op |-> "sign", pw |-> "", ok |-> C!MaySign(mem)])
        /\ UNCHANGED <<kind, pw, box, altered, mem, how>>
(* the box made of a key in memory: in the clear, whatever its label.  For a key opened with a password  *)
(* this is the known finding D8: the box is labelled as sealed and opens with neither family.             *)
Rebox == /\ stage \in {"opened", "signed"} /\ mem # None
         /\ stage' = "stored"
         /\ Len(log) < 4
         /\ box' = [alg |-> mem.alg, label |-> mem.label, chkalg |-> box.chkalg, salt |-> mem.salt, par |-> mem.par,
                    core |-> IF mem.mask = Clear THEN [id |-> mem.keynum, sk |-> mem.sk, chk |-> mem.chk] ELSE box.core,
                    mask |-> mem.mask, tail |-> FALSE]
         /\ mem' = None
         /\ log' = Append(log, [op |-> "rebox", pw |-> "", ok |-> TRUE])
         /\ UNCHANGED <<kind, pw, altered, how>>

Next == Alter \/ OpenPlain \/ (\E p \in Passwords : OpenWith(p)) \/ Reload \/ Sign \/ Rebox
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------- properties *)
Opened == stage \in {"opened", "signed"} /\ mem # None
Fresh  == \A i \in DOMAIN log : log[i].op # "rebox"
(* C05 *)
OnlyRightPassword == Opened /\ Fresh /\ how[1] = "with" =>
  kind = "enc" /\ how[2] = pw /\ mem.keynum = <<"id", "k">> /\ mem.sk = <<"sk", "k">>
RightPasswordOpens == stage = "opened" /\ Fresh /\ kind = "enc" /\ how = <<"with", pw>> /\ altered \subseteq {"chkalg", "tail"} => mem # None
(* an altered stored key never opens to another one (all of one other, unsealed key is that other key, not an alteration) *)
NeverAnother == Opened /\ how[1] # "bytes" /\ "core-of-other" \notin altered =>
  mem.keynum = <<"id", "k">> /\ mem.sk = <<"sk", "k">>
(* C09 *)
LabelsRespected == Opened => /\ how[1] = "plain" => mem.label = "none"
                             /\ how[1] = "with" => mem.label = "Sc"
ChecksumHolds == Opened /\ how[1] # "bytes" => C!Usable(mem)
NoSigningWhenSealed == \A i \in DOMAIN log : log[i].op = "sign" /\ log[i].ok => mem = None \/ mem.mask = Clear
(* C08: a key that never was sealed opens again from its own box *)
PlainReboxOpens == stage = "opened" /\ kind = "plain" /\ altered = {} /\ how[1] = "plain" => mem # None

Printed == Len(log) > 0 /\ Cardinality(altered) <= Emit =>
  PrintT("@@" \o ToJson([kind |-> kind, pw |-> pw, altered |-> altered, log |-> log]))
=============================================================================

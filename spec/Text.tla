--------------------------------- MODULE Text ---------------------------------
(* The grammar of signature, public key and secret key texts over an alphabet of   *)
(* lexical classes, and an editor that changes a well-formed text at any position. *)
(*   "U" "T"  the two comment prefixes          "u" "t"  almost one of them         *)
(*   "S" "G"  base64 of a signature / of a global signature                         *)
(*   "K" "X"  base64 of a public key / of a secret key                              *)
(*   "s"      almost one of these                                                   *)
(*   "c"      other text    "_" "~"  white space, ASCII or not    "B"  byte order mark *)
(*   "R" "N"  carriage return, line feed                                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Kind, MaxEdits, Emit

Alphabet == {"U", "u", "c", "s", "_", "~", "B", "R", "N"} \cup
            (CASE Kind = "sig" -> {"T", "t", "S", "G"} [] Kind = "pk" -> {"K"} [] OTHER -> {"X"})
Start == CASE Kind = "sig" -> <<"U", "c", "N", "S", "N", "T", "c", "N", "G", "N">>
           [] Kind = "pk"  -> <<"U", "c", "N", "K", "N">>
           [] OTHER        -> <<"U", "c", "N", "X", "N">>

(* ------------------------------------------------------------------ the grammar *)
Stripped(l) == IF l # <<>> /\ l[Len(l)] = "R" THEN SubSeq(l, 1, Len(l) - 1) ELSE l
(* lines end with LF or CR LF; the last one may lack it; a CR elsewhere is part of the line *)
RECURSIVE Lines(_)
Lines(t) ==
  IF t = <<>> THEN <<>>
  ELSE LET S == {i \in DOMAIN t : t[i] = "N"} IN
       IF S = {} THEN <<t>>
       ELSE LET n == CHOOSE x \in S : \A y \in S : x <= y
            IN <<Stripped(SubSeq(t, 1, n - 1))>> \o Lines(SubSeq(t, n + 1, Len(t)))
White == {"_", "~", "R"}
Trimmed(l) ==
  LET S == {i \in DOMAIN l : l[i] \notin White} IN
  IF S = {} THEN <<>>
  ELSE SubSeq(l, CHOOSE x \in S : \A y \in S : x <= y, CHOOSE x \in S : \A y \in S : x >= y)

Begins(l, p) == l # <<>> /\ l[1] = p
Accept(t) ==
  LET l == Lines(t) IN
  CASE Kind = "sig" -> /\ Len(l) >= 4
                       /\ Begins(l[1], "U") /\ Trimmed(l[2]) = <<"S">>
                       /\ Begins(l[3], "T") /\ Trimmed(l[4]) = <<"G">>
    [] Kind = "pk"  -> Len(l) >= 2 /\ l[2] = <<"K">>
    [] OTHER        -> Len(l) >= 2 /\ l[2] = <<"X">>
Parse(t) == LET l == Lines(t) IN
  IF Kind = "sig" THEN [uc |-> Tail(l[1]), tc |-> Tail(l[3])] ELSE [uc |-> <<>>, tc |-> <<>>]
Canon(p) == IF Kind = "sig" THEN <<"U">> \o p.uc \o <<"N", "S", "N", "T">> \o p.tc \o <<"N", "G", "N">> ELSE Start

(* ------------------------------------------------------------------ the editor *)
VARIABLES text, edits
vars == <<text, edits>>
Init == text = Start /\ edits = 0
Put(t) == text' = t /\ edits' = edits + 1
Delete == \E i \in DOMAIN text : Put(SubSeq(text, 1, i - 1) \o SubSeq(text, i + 1, Len(text)))
Insert == \E i \in 0..Len(text), x \in Alphabet : Put(SubSeq(text, 1, i) \o <<x>> \o SubSeq(text, i + 1, Len(text)))
Replace == \E i \in DOMAIN text : \E x \in Alphabet \ {text[i]} : Put([text EXCEPT ![i] = x])
Cut == \E i \in 0..(Len(text) - 1) : Put(SubSeq(text, 1, i))
Double == \E i \in DOMAIN text : \E j \in i..Len(text) : Put(SubSeq(text, 1, j) \o SubSeq(text, i, Len(text)))
Swap == \E i \in DOMAIN text, j \in DOMAIN text : i < j /\ Put([text EXCEPT ![i] = text[j], ![j] = text[i]])
Next == edits < MaxEdits /\ (Delete \/ Insert \/ Replace \/ Cut \/ Double \/ Swap)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------ properties *)
Plain(c) == c = <<>> \/ c[Len(c)] # "R"
(* what was loaded can be stored and loaded again, unchanged *)
RoundTrip == Accept(text) => LET p == Parse(text) IN
               Plain(p.uc) /\ Plain(p.tc) => Accept(Canon(p)) /\ Parse(Canon(p)) = p
(* further lines change nothing *)
MoreIgnored == \A x \in Alphabet : Accept(text) /\ text[Len(text)] = "N" => Accept(text \o <<x>>) /\ Parse(text \o <<x>>) = Parse(text)
(* CR LF line ends change nothing *)
RECURSIVE ToCrLf(_)
ToCrLf(t) == IF t = <<>> THEN <<>> ELSE (IF t[1] = "N" THEN <<"R", "N">> ELSE <<t[1]>>) \o ToCrLf(Tail(t))
CrLfSame == Accept(text) /\ (\A i \in DOMAIN text : text[i] # "R") => Accept(ToCrLf(text)) /\ Parse(ToCrLf(text)) = Parse(text)
(* every part is required *)
AllNeeded == Accept(text) => \A c \in (IF Kind = "sig" THEN {"U", "S", "T", "G"} ELSE IF Kind = "pk" THEN {"K"} ELSE {"X"}) :
                               \E i \in DOMAIN text : text[i] = c

Printed == Emit => PrintT("@@" \o ToJson([kind |-> Kind, text |-> text, ok |-> Accept(text), n |-> edits]))
=============================================================================

-------------------------------- MODULE Leaks --------------------------------
(* What a recorded execution reveals: the concrete side of Secrets.tla.             *)
EXTENDS Judge

(* ---------------------------------------------------- a secret inside a text *)
LowerHexDigit == [i \in 0..15 |-> IF i < 10 THEN 48 + i ELSE 87 + i]
LowerHex(b) == [k \in 1..(2 * Len(b)) |-> LowerHexDigit[IF k % 2 = 1 THEN b[(k + 1) \div 2] \div 16 ELSE b[k \div 2] % 16]]
RECURSIVE ShortHex(_), Decimals(_), Signed(_), Number(_)
ShortHex(b) == IF b = <<>> THEN <<>>
               ELSE (IF b[1] < 16 THEN <<LowerHexDigit[b[1]]>> ELSE LowerHex(<<b[1]>>)) \o ShortHex(Tail(b))
Decimal(n)  == IF n < 10 THEN <<48 + n>> ELSE IF n < 100 THEN <<48 + n \div 10, 48 + (n % 10)>>
               ELSE <<48 + n \div 100, 48 + ((n \div 10) % 10), 48 + (n % 10)>>
Decimals(b) == IF b = <<>> THEN <<>> ELSE Decimal(b[1]) \o Decimals(Tail(b))
Signed(b)   == IF b = <<>> THEN <<>> ELSE Decimal(IF b[1] < 128 THEN b[1] ELSE 256 - b[1]) \o Signed(Tail(b))
(* a number of any size, most significant byte first: its last digit, and what is left without it *)
RECURSIVE By10(_, _)
By10(b, r) == IF b = <<>> THEN [q |-> <<>>, r |-> r]
              ELSE LET n == r * 256 + b[1] IN LET x == By10(Tail(b), n % 10) IN [q |-> <<n \div 10>> \o x.q, r |-> x.r]
Number(b) == IF \A k \in DOMAIN b : b[k] = 0 THEN <<>> ELSE LET x == By10(b, 0) IN Number(x.q) \o <<48 + x.r>>
(* its absolute value if it is signed *)
RECURSIVE Minus(_, _)
Minus(b, c) == IF b = <<>> THEN <<>>
               ELSE LET n == 255 - b[Len(b)] + c IN Minus(Take(b, Len(b) - 1), n \div 256) \o <<n % 256>>
Magnitude(b) == IF b[1] < 128 THEN b ELSE Minus(b, 1)
Halves(b) == <<Take(b, Len(b) \div 2), Drop(b, Len(b) \div 2)>>
(* as numbers of 8 or of 4 bytes, in either order of bytes *)
Numbers(p) == LET h == Halves(p) IN
  {Number(p), Number(Rev(p)), Number(Magnitude(p)), Number(Magnitude(Rev(p))),
   Number(h[1]) \o Number(h[2]), Number(Rev(h[1])) \o Number(Rev(h[2])),
   Number(Magnitude(h[1])) \o Number(Magnitude(h[2])), Number(Magnitude(Rev(h[1]))) \o Number(Magnitude(Rev(h[2])))}
(* what is looked for is in pieces of 8 bytes (the whole of a secret of 6 or 7). In the text as it is: the pieces, *)
(* also backwards; and pieces of 9 bytes in base64, which shows in whatever they are encoded together with. In the  *)
(* hexadecimal digits of the text, whatever separates them: bytes in two digits or in as many as they need. In its  *)
(* decimal digits: lists of bytes, and of longer numbers                                                             *)
Width(s)     == IF Len(s) < 8 THEN Len(s) ELSE 8
Pieces(s)    == {Slice(s, i, Width(s)) : i \in 0..(Len(s) - Width(s))}
UrlSafe(b)   == [k \in DOMAIN b |-> CASE b[k] = 43 -> 45 [] b[k] = 47 -> 95 [] OTHER -> b[k]]
PlainForms(s) == LET Q == {B64Encode(Slice(s, i, 9)) : i \in 0..(Len(s) - 9)}
                 IN Pieces(s) \cup {Rev(p) : p \in Pieces(s)} \cup Q \cup {UrlSafe(q) : q \in Q}
HexForms(s)  == {LowerHex(p) : p \in Pieces(s)} \cup {LowerHex(Rev(p)) : p \in Pieces(s)} \cup {f \in {ShortHex(p) : p \in Pieces(s)} : Len(f) >= 12}
DecForms(s)  == {f \in {Decimals(p) : p \in Pieces(s)} \cup {Signed(p) : p \in Pieces(s)} \cup
                       (IF Width(s) = 8 THEN UNION {Numbers(p) : p \in Pieces(s)} ELSE {}) : Len(f) >= 2 * Width(s)}
Digits(t)    == SelectSeq(t, LAMBDA c : c \in 48..57)
Without0x(t) == [k \in DOMAIN t |-> IF t[k] = 48 /\ k < Len(t) /\ t[k + 1] = 120 THEN 32 ELSE t[k]]
HexDigits(t) == SelectSeq([k \in DOMAIN t |-> IF t[k] \in 65..70 THEN t[k] + 32 ELSE t[k]], LAMBDA c : c \in 48..57 \cup 97..102)
RevealsDef(t, s) == /\ Width(s) >= 6
                    /\ \/ \E f \in PlainForms(s) : Occurs(f, t)
                       \/ LET h == HexDigits(Without0x(t)) IN \E f \in HexForms(s) : Occurs(f, h)
                       \/ LET d == Digits(t) IN \E f \in DecForms(s) : Occurs(f, d)

------------------------------------------------------------------------------
Seedlike(k) == k.ok /\ Len(k.sk) = 64 /\ C!Usable(k) /\ EdPub(Take(k.sk, 32)) = Drop(k.sk, 32)
KeySecrets(k) == IF Seedlike(k) THEN {ToHex(Take(k.sk, 32))} ELSE {}
Password(e) == Hex(Field(e, "effpw", Field(e, "pw", "")))
PasswordSecrets(e) == {ToHex(p) : p \in {Password(e)} \cup (IF "entries" \in DOMAIN e THEN {Hex(e.entries[i].t) : i \in DOMAIN e.entries} ELSE {})}
(* the seed of a key pair: in its box, or else among the bytes drawn for it *)
Fits(seed, e) == EdPub(seed) = Drop(Hex(e.pkb), 10)
SeedOf(e) ==
  LET k == SkOfBytes(Hex(e.skb)) IN
  IF ~k.ok \/ Len(Hex(e.pkb)) # PkLen THEN <<>>
  ELSE LET u == Opened(k, Password(e))
           dr == Hex(e.drawn)
           W == {Slice(dr, i, 32) : i \in 0..(Len(dr) - 32)}
       IN IF u.ok /\ Fits(Take(u.sk, 32), e) THEN Take(u.sk, 32)
          ELSE IF \E w \in W : Fits(w, e) THEN CHOOSE w \in W : Fits(w, e) ELSE <<>>
(* what was drawn for a key pair without a password that was not made after all *)
RECURSIVE DrawnParts(_, _)
DrawnParts(dr, l) == IF l = <<>> THEN {}
                     ELSE LET n == IF l[1] < 0 THEN 0 ELSE l[1] IN {Take(dr, n)} \cup DrawnParts(Drop(dr, n), Tail(l))
(* a draw may serve several fields: the key identifier, where the public key was written, is no secret *)
Around(y, id) == IF id = <<>> \/ ~Occurs(id, y) THEN {y}
                 ELSE LET i == CHOOSE j \in 0..(Len(y) - 8) : Slice(y, j, 8) = id IN {Take(y, i), Drop(y, i + 8)}
Unmade(e) ==
  LET w  == Hex(Field(e, "pkw", ""))
      id == IF Len(w) >= 10 THEN Slice(w, 2, 8) ELSE <<>>
      Ds == {y \in DrawnParts(Hex(e.drawn), e.draws) : Len(y) >= 32}
  IN IF e.kind = "plain" THEN {ToHex(x) : x \in {y \in UNION {Around(z, id) : z \in Ds} : Len(y) >= 8}} ELSE {}
NewSecrets(e) ==
  IF e.res = "abort" THEN {} ELSE
  CASE e.op \in {"gen", "genw"} -> PasswordSecrets(e) \cup (IF Got(e) THEN (IF SeedOf(e) # <<>> THEN {ToHex(SeedOf(e))} ELSE {}) ELSE Unmade(e))
    [] e.op = "sk_load" -> PasswordSecrets(e) \cup (IF Got(e) THEN KeySecrets(SkOfBytes(Hex(e.skb))) ELSE {})
    [] OTHER -> {}

(* everything that an operation makes public *)
Talk(e) == {Hex(e[f]) : f \in {"out", "err", "msgh", "tty"} \cap DOMAIN e}
Public(e) ==
  IF e.res = "abort" THEN {} ELSE
  Talk(e) \cup
  (IF ~Got(e) THEN (IF e.op = "genw" THEN {Hex(e.pkw)} \cup (IF e.kind = "plain" THEN {} ELSE {Hex(e.skw)}) ELSE {})
   ELSE CASE e.op = "sign" -> {Hex(e.text), Hex(e.bones)}
          [] e.op = "gen"  -> {Hex(e.pkb)} \cup (IF e.kind = "plain" THEN {} ELSE {Hex(e.skb)})
          [] e.op = "genw" -> {Hex(e.pkb), Hex(e.pkw)} \cup (IF e.kind = "plain" THEN {} ELSE {Hex(e.skb), Hex(e.skw)})
          [] e.op \in {"pk_from_sk", "pk_load"} -> {Hex(e.pkb)}
          [] e.op = "pk_store" -> {Hex(e.outb)}
          [] OTHER -> {})
JLeak(e, secrets) ==
  V(\E s \in secrets : \E t \in Public(e) : Reveals(t, Hex(s)), "C20", "a secret appears in what is published, printed or reported")

(* the masks of a sealed box, in blocks of 8 bytes: a block used twice gives away the difference of what it masks *)
Masks(e) == IF e.op \in {"gen", "genw"} /\ Got(e) /\ e.kind # "plain"
            THEN LET k == SkOfBytes(Hex(e.skb))
                     seed == SeedOf(e)
                     id == Slice(Hex(e.pkb), 2, 8)
                     sk == seed \o Drop(Hex(e.pkb), 10)
                 IN IF seed = <<>> THEN <<>>
                    ELSE LET m == XorBytes(k.sealed, id \o sk \o Blake2b(32, AlgEd \o id \o sk)) IN [j \in 1..13 |-> ToHex(Slice(m, 8 * (j - 1), 8))]
            ELSE <<>>
Elems(l) == {l[j] : j \in DOMAIN l}
JMask(e, masks) == LET m == Masks(e) IN
  V(\/ \E i, j \in DOMAIN m : i < j /\ m[i] = m[j]
    \/ Elems(m) \cap masks # {}, "C20", "a mask is used twice")
==============================================================================

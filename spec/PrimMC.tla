------------------------------- MODULE PrimMC --------------------------------
(* Compares the primitives as written out in Prim.tla (and what a text reveals, Leaks.tla) with what    *)
(* TLC takes the operators of Oracle.tla to be, and both with published answers.                          *)
EXTENDS Prim, Leaks, Json
CONSTANTS CaseFile
Cases == ndJsonDeserialize(CaseFile)

ASSUME Constants

VARIABLES at_, done_
vars == <<at_, done_>>
(* the variables have names that nothing else has: TLC caches less of what mentions a name that is also a variable's *)
Init == at_ \in 1..Len(Cases) /\ done_ = FALSE
Next == ~done_ /\ done_' = TRUE /\ UNCHANGED at_
Spec == Init /\ [][Next]_vars

Known(c, x) == "want" \in DOMAIN c => x = (IF c.f \in {"verify", "reveals"} THEN c.want ELSE Hex(c.want))
Agrees(c) ==
  CASE c.f = "blake2b" -> LET x == PBlake2b(c.n, Hex(c.m)) IN x = Blake2b(c.n, Hex(c.m)) /\ Known(c, x)
    [] c.f = "sha512"  -> Known(c, PSha512(Hex(c.m)))
    [] c.f = "sha256"  -> Known(c, PSha256(Hex(c.m)))
    [] c.f = "scrypt"  -> LET x == PScrypt(Hex(c.pw), Hex(c.salt), c.ln, c.r, c.p, c.n) IN x = Scrypt(Hex(c.pw), Hex(c.salt), c.ln, c.r, c.p, c.n) /\ Known(c, x)
    [] c.f = "pub"     -> LET x == PEdPub(Hex(c.m)) IN x = EdPub(Hex(c.m)) /\ Known(c, x)
    [] c.f = "verify"  -> LET x == PEdVerify(Hex(c.key), Hex(c.m), Hex(c.sig)) IN x = EdVerify(Hex(c.key), Hex(c.m), Hex(c.sig)) /\ Known(c, x)
    [] c.f = "data"    -> DataBytes(c.d, 0) = Hex(c.m) /\ DataLen(c.d) = Len(Hex(c.m)) /\ \A k \in {0, 1, Len(Hex(c.m)) \div 2} : DataHash(c.d, k) = PBlake2b(64, Drop(Hex(c.m), k))
    [] c.f = "reveals" -> LET x == RevealsDef(Hex(c.m), Hex(c.secret)) IN x = Reveals(Hex(c.m), Hex(c.secret)) /\ Known(c, x)
Agree == done_ => Agrees(Cases[at_])
==============================================================================

------------------------------ MODULE Resources ------------------------------
(* What a recorded call took: the concrete side of Memory.tla.  e.mem is the most    *)
(* that the call had allocated at a time, e.sum all that it allocated, in KiB.       *)
EXTENDS Judge

KiB(hexdigits) == (Len(hexdigits) \div 2048) + 1
Slack == 4096
(* scrypt: N blocks, p more, and what it works with, of 128 * r bytes *)
ScryptKiB(q) == (((q.r * (2^q.logn + q.p + 4)) \div 8) \div 4) * 5
DefaultScrypt == ScryptKiB(Params(DefOps, DefMem).q)

SigKiB(e) == 16 * (KiB(Field(e, "tc", "")) + KiB(Field(e, "uc", "")) + KiB(Field(e, "sigb", "")))
Legacy(e) == e.op = "verify" /\ SigFrom(e.sigsrc, Hex(e.sigb)).alg = AlgEd
Derivation(e) ==
  IF e.carrier \in {"bytes", "ubox", "uboxfrom"} THEN 0
  ELSE LET k == SkOfText(Hex(e.in)) IN
       IF ~k.ok THEN 0
       ELSE IF k.label # KdfSc THEN 0
       ELSE LET q == Params(k.ops, k.mem) IN IF q.ok THEN ScryptKiB(q.q) ELSE 0
Texts == {"pk_load", "sk_load", "sig_load"}

JMem(e) ==
  CASE e.res = "skip" -> {}
    [] e.res = "abort" -> VAll(TRUE, e.need, "the process ran out of memory or time, or died")
    [] e.op = "again" ->
         UNION { V(e.grown > 16384 + 4 * e.n, "C21", "what the calls allocated remains when they returned"),
                 V(e.fds > 4, "C21", "open files remain when the calls returned"),
                 V(e.tasks > 2, "C21", "threads remain when the calls returned") }
    [] "mem" \notin DOMAIN e -> {}
    [] e.op = "sign" \/ e.op = "verify" ->
         IF e.mem <= Slack + SigKiB(e) THEN {}
         ELSE IF Legacy(e) THEN V(e.mem > Slack + SigKiB(e) + 6 * (DataLen(e.data) \div 1024), "C21", "memory out of proportion to legacy data")
         ELSE V(TRUE, "C21", "data that is hashed as it is read was kept in memory")
    [] e.op \in Texts ->
         LET n == KiB(e.in) IN
         IF e.mem <= 1024 + 64 * n /\ e.sum <= Slack + 512 * n THEN {}
         ELSE LET d == IF e.op = "sk_load" THEN Derivation(e) ELSE 0 IN
              V(e.mem > 1024 + 64 * n + d \/ e.sum > Slack + 512 * n + 2 * d, "C21", "memory out of proportion to what was loaded")
    [] e.op \in {"gen", "genw"} ->
         LET d == IF e.kind = "plain" THEN 0 ELSE DefaultScrypt
             n == KiB(Field(e, "comment", "")) IN
         V(e.mem > 1024 + 64 * n + d \/ e.sum > Slack + 512 * n + 2 * d, "C21", "memory out of proportion to what was generated")
    [] e.op \in {"pk_store", "sk_store", "sig_store", "pk_from_sk", "sig_bones"} ->
         LET n == KiB(Field(e, "outb", "")) + KiB(Field(e, "sigb", "")) IN
         V(e.mem > 1024 + 64 * n \/ e.sum > Slack + 512 * n, "C21", "memory out of proportion to what was stored")
    [] OTHER -> {}
=============================================================================

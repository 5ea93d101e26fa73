-------------------------------- MODULE Judge --------------------------------
(* The specification of every public operation over concrete bytes, as a relation *)
(* between the arguments and the outcome of a recorded call.  Judge(e, ...) is     *)
(* the set of deviations of event e, each with the property it violates: an event  *)
(* is a step the specification allows iff the set is empty.                        *)
EXTENDS Formats, Kdf, Oracle, TLC

(* ------------------------------------------------ concrete instance of Core *)
COver(key, d, sig)        == EdVerify(key, DataHash(d.d, d.s), sig)
CRaw(key, d, sig)         == DataEdVerify(key, d.d, d.s, sig)
CComment(key, sig, tc, g) == EdVerify(key, sig \o tc, g)
CDegenerate(key)          == key = Zeros(32) \/ key = <<1>> \o Zeros(31) \/ key = <<1>> \o Zeros(30) \o <<128>>
CChecksum(alg, id, sk)    == Blake2b(32, alg \o id \o sk)
CUnmask(k, pw) ==
  LET q == Params(k.ops, k.mem) IN
  IF ~q.ok THEN [ok |-> FALSE]
  ELSE LET u == XorBytes(k.sealed, Scrypt(pw, k.salt, q.q.logn, q.q.r, q.q.p, 104))
       IN [ok |-> TRUE, alg |-> k.alg, keynum |-> Slice(u, 0, 8), sk |-> Slice(u, 8, 64), chk |-> Slice(u, 72, 32)]

C == INSTANCE Core WITH TagPrehashed <- AlgED, TagLegacy <- AlgEd, LabelNone <- KdfNo, LabelScrypt <- KdfSc,
       OverDigest <- COver, OverData <- CRaw, OverComment <- CComment, Degenerate <- CDegenerate,
       Checksum <- CChecksum, Unmask <- CUnmask

(* ---------------------------------------------------------------- reporting *)
V(cond, p, why) == IF cond THEN {[p |-> p, why |-> why]} ELSE {}
VAll(cond, ps, why) == IF cond THEN {[p |-> ps[i], why |-> why] : i \in DOMAIN ps} ELSE {}
Crash(e) == e.res \in {"panic", "abort"}
Got(e) == e.res = "ok"
Field(e, f, d) == IF f \in DOMAIN e THEN e[f] ELSE d

(* ------------------------------------------------------------------ readers *)
(* log of a reader: k = "r" bytes delivered (0: end of file), "e" failure, "i" interruption, "s" seek, *)
(* "se" failed seek.  The first pass ends when the end of file is reported.                            *)
Eofs(log)  == {i \in DOMAIN log : log[i].k = "r" /\ log[i].n = 0}
Pass1(log) == IF Eofs(log) = {} THEN log ELSE Take(log, MinOf(Eofs(log)))
Failed1(log) == \E i \in DOMAIN Pass1(log) : Pass1(log)[i].k = "e"
Intr1(log) == \E i \in DOMAIN Pass1(log) : Pass1(log)[i].k = "i"
AnyFault(log) == \E i \in DOMAIN log : log[i].k \in {"e", "i", "se"}

(* ------------------------------------------------------------ random draws *)
RngFailed(e) == \E i \in DOMAIN e.draws : e.draws[i] < 0

(* ------------------------------------------------------------------- loading *)
PkFrom(src, b) == CASE src = "bytes" -> PkOfBytes(b) [] src = "b64" -> PkOfB64(b) [] src = "box" -> PkOfText(b)
SigFrom(src, b) == CASE src = "bones" -> SigOfBones(b) [] src = "text" -> SigOfText(b) [] src = "cut" -> Cut(SigOfText(b))

(* -------------------------------------------------------------------- verify *)
JVerify(e) ==
  LET pk  == PkFrom(e.pksrc, Hex(e.pkin))
      sg  == SigFrom(e.sigsrc, Hex(e.sigb))
      d   == [d |-> e.data, s |-> e.start]
      id  == C!IdOK(pk, sg)
      pri == C!PrimaryOK(pk, sg, d)
      leg == C!LegacyOK(sg, e.legacy)
      com == C!CommentOK(pk, sg)
      all == id /\ pri /\ leg /\ com
      f1  == Failed1(e.rlog)
      n   == DataLen(e.data)
      len == IF e.start >= n THEN 0 ELSE n - e.start
      err == Hex(e.err)
      tc  == Hex(e.tcout)
      good == Got(e) /\ all /\ ~f1
  IN IF ~pk.ok \/ ~sg.ok THEN {}       \* should not have been loaded: reported there
     ELSE
     UNION {
       V(Got(e) /\ ~(id /\ pri), "C01", "accepted: the data signature is not valid by this key over these data"),
       V(Got(e) /\ ~leg, "C04", "accepted: legacy signature although not allowed"),
       V(Got(e) /\ ~pri /\ (IF sg.alg = AlgED THEN CRaw(pk.key, d, sg.sig) ELSE COver(pk.key, d, sg.sig)),
         "C04", "accepted: checked as the other kind of signature"),
       V(Got(e) /\ ~com, "C03", "accepted: the global signature does not authenticate the comment"),
       V(Got(e) /\ f1, "C12", "accepted although reading the data failed"),
       VAll(~Got(e) /\ all /\ ~AnyFault(e.rlog) /\ e.stdout = "file", e.need, "a valid signature was rejected"),
       V(Crash(e), "C10", "verification crashed"),
       \* output
       V(Got(e) /\ ~e.output /\ e.outlen > 0, "C14", "output although none was requested"),
       V(Got(e) /\ e.output /\ e.stdout = "file"
           /\ (e.outlen # len \/ e.outfp # DataFp(e.data, e.start, len) \/ e.unflushed # 0),
         "C14", "the output is not exactly the verified data, flushed"),
       V(Got(e) /\ e.output /\ e.stdout # "file" /\ len > 0, "C14", "success although the output could not be written"),
       V(e.outlen > 0 /\ ~(all /\ ~f1), "C14", "data output although not verified"),
       V(~Got(e) /\ e.outlen > 0 /\ all /\ ~f1
           /\ ~(e.output /\ e.outlen <= len /\ e.outfp = DataFp(e.data, e.start, e.outlen)),
         "C14", "the output is not part of the verified data"),
       V(e.quiet /\ e.errlen > 0, "C14", "quiet, but something was written to standard error"),
       V(good /\ ~e.quiet /\ sg.hastc /\ ~Occurs(sg.tc, err), "C14", "the verified comment was not printed"),
       V(good /\ ~e.quiet /\ sg.hastc /\ ~Occurs(sg.tc, err), "C03", "the printed comment is not the verified one"),
       V(~Got(e) /\ ~(all /\ ~f1) /\ Len(tc) >= 4 /\ Occurs(tc, err), "C14", "unverified comment printed"),
       V(~Got(e) /\ ~(all /\ ~f1) /\ len >= 8 /\ len <= 4096 /\ Len(err) >= 8
           /\ Occurs(Take(DataBytes(e.data, e.start), 8), err), "C14", "unverified data printed"),
       \* what the box reports
       V(e.hastc # sg.hastc \/ tc # sg.tc, "C03", "the reported trusted comment is not the one of the signature"),
       V(e.pre # (sg.alg = AlgED), "C04", "the signature is not reported as what its tag says"),
       V(Hex(e.keynum) # sg.keynum \/ Hex(e.ucout) # sg.uc, "C11", "what is reported is not what was in the signature")
     }

(* ---------------------------------------------------------------------- sign *)
RPart(sig) == Take(sig, 32)
JSign(e) ==
  LET k    == SkOfBytes(Hex(e.skb))
      usable == C!MaySign(k)
      pub  == EdPub(SkSeed(k))
      fine == usable /\ pub = SkPub(k)
      pk   == IF e.haspk THEN PkOfBytes(Hex(e.pkb)) ELSE Bad
      d    == [d |-> e.data, s |-> e.start]
      sg   == SigOfBones(Hex(e.bones))
      sgt  == SigOfText(Hex(e.text))
      uc   == Hex(e.ucout)
      tc   == Hex(e.tcout)
      one  == (e.ucgiven => SingleLine(Hex(e.uc))) /\ (e.tcgiven => SingleLine(Hex(e.tc)))
      f1   == Failed1(e.rlog)
      id   == [keynum |-> k.keynum, key |-> pub]
      stamp == Drop(tc, Len(TimestampPrefix))
  IN IF ~k.ok THEN V(TRUE, "C08", "the bytes of a secret key have the wrong size")
     ELSE IF ~Got(e) THEN
       UNION {
         V(Crash(e), "C10", "signing crashed"),
         VAll(fine /\ ~AnyFault(e.rlog) /\ ~RngFailed(e) /\ (e.haspk => pk.ok /\ pk.key = pub),
              e.need, "signing with a usable key failed"),
         V(e.outlen > 0, "C14", "signing wrote to standard output")
       }
     ELSE IF ~usable THEN V(TRUE, "C09", "signed with a key that is encrypted or corrupted")
     ELSE IF ~sg.ok \/ Len(Hex(e.bones)) # SigLen THEN {[p |-> q, why |-> "not a signature"] : q \in {"C02", "C15"}}
     ELSE
     UNION {
       V(RngFailed(e), "C07", "signed although the random generator failed"),
       V(f1, "C12", "signed although reading the data failed"),
       V(e.haspk /\ ~(pk.ok /\ C!PrimaryOK(pk, sg, d)), "C17", "the returned signature does not verify under the given public key"),
       V(sg.alg # AlgED, "C04", "produced signature not tagged as pre-hashed"),
       V(~e.pre \/ ~e.bonespre, "C04", "produced signature not reported as pre-hashed"),
       V(sg.alg # AlgED, "C15", "produced signature not tagged as pre-hashed"),
       {[p |-> q, why |-> "key id of the signature is not that of the key"] :
          q \in IF sg.keynum # k.keynum \/ Hex(e.keynum) # k.keynum THEN {"C02", "C15"} ELSE {}},
       V(e.haspk /\ pk.ok /\ fine /\ pk.key = pub /\ (sg.keynum # k.keynum \/ Hex(e.keynum) # k.keynum), "C17",
         "giving the matching public key changed the key id"),
       {[p |-> q, why |-> "the data signature is not valid"] :
          q \in IF fine /\ ~C!PrimaryOK(id, sg, d) THEN {"C02", "C15"} \cup (IF e.reader # "" THEN {"C12"} ELSE {}) ELSE {}},
       V(~e.hastc, "C03", "no trusted comment in a produced signature"),
       V(e.tcgiven /\ tc # Hex(e.tc), "C03", "the trusted comment is not the one given"),
       V(e.tcgiven /\ tc # Hex(e.tc), "C02", "the trusted comment is not the one given"),
       V(e.ucgiven /\ uc # Hex(e.uc), "C02", "the untrusted comment is not the one given"),
       V(~e.tcgiven /\ ~(/\ StartsWith(tc, TimestampPrefix) /\ IsDigits(stamp)
                         /\ DecLeq(Hex(e.t0), stamp) /\ DecLeq(stamp, Hex(e.t1))),
         "C03", "the default trusted comment is not the current time"),
       {[p |-> q, why |-> "a single-line signature text is not well-formed, or not that of the signature"] :
          q \in IF one /\ ~(sgt.ok /\ Hex(e.text) = SigText(sgt) /\ sgt.bones = sg.bones /\ sgt.uc = uc /\ sgt.tc = tc)
                THEN {"C02", "C15"} ELSE {}},
       {[p |-> q, why |-> "the global signature is not valid"] :
          q \in IF one /\ fine /\ sgt.ok /\ ~C!CommentOK(id, sgt) THEN {"C02", "C03", "C15"} ELSE {}},
       V(one /\ sgt.ok /\ RPart(sgt.gsig) = RPart(sg.sig), "C07", "both signatures use the same nonce"),
       V(e.outlen > 0, "C14", "signing wrote to standard output")
     }

(* ------------------------------------------------------------ key generation *)
(* a = the bytes drawn from the generator, where the driver delivered them *)
At(p, s) == {i \in 0..(Len(s) - Len(p)) : s[i + 1] = p[1] /\ Slice(s, i, Len(p)) = p}
Disjoint(i, n, j, m) == i + n <= j \/ j + m <= i
DrawnFresh(drawn, seed, id, salt) ==
  \E i \in At(seed, drawn) : \E j \in At(id, drawn) :
    /\ Disjoint(i, 32, j, 8)
    /\ salt # <<>> => \E l \in At(salt, drawn) : Disjoint(l, 32, i, 32) /\ Disjoint(l, 32, j, 8)

DefOps == Le64(DefaultOps)
DefMem == Le64(DefaultMem)

Opened(k, pw) == IF k.label = KdfSc THEN CUnmask(k, pw)
                 ELSE [ok |-> TRUE, alg |-> k.alg, keynum |-> k.keynum, sk |-> k.sk, chk |-> k.chk]

JKeyPair(e) ==
  LET k  == SkOfBytes(Hex(e.skb))
      pk == PkOfBytes(Hex(e.pkb))
      pw == Hex(Field(e, "effpw", e.pw))
      u  == Opened(k, pw)
      clear == <<u.keynum, u.sk, u.chk>>
      sealedok == /\ k.label = KdfSc /\ k.ops = DefOps /\ k.mem = DefMem
                  /\ u.ok /\ C!Usable(u) /\ EdPub(Take(u.sk, 32)) = Drop(u.sk, 32)
      plainok  == k.label = KdfNo /\ C!Usable(u) /\ EdPub(Take(u.sk, 32)) = Drop(u.sk, 32)
      good == IF e.kind = "plain" THEN plainok ELSE sealedok
  IN IF ~k.ok \/ ~pk.ok \/ Len(Hex(e.skb)) # SkLen \/ Len(Hex(e.pkb)) # PkLen
     THEN V(TRUE, "C15", "generated keys have the wrong size")
     ELSE UNION {
       V(RngFailed(e), "C07", "a key was returned although the random generator failed"),
       V(k.alg # AlgEd \/ k.chkalg # AlgB2 \/ pk.alg # AlgEd, "C15", "algorithm tags of the generated keys"),
       V(e.kind = "plain" /\ ~plainok, "C15", "the generated secret key is not a well-formed plain key"),
       V(e.kind = "plain" /\ ~plainok, "C02", "the generated secret key is not usable"),
       {[p |-> q, why |-> "the secret key is not masked with the scrypt stream of the password at default cost"] :
          q \in IF e.kind # "plain" /\ ~sealedok THEN {"C06", "C15"} ELSE {}},
       V(e.kind # "plain" /\ k.label = KdfSc /\ ~(u.ok /\ C!Usable(u)), "C05", "the key does not open with its password"),
       V(good /\ (pk.key # Drop(u.sk, 32) \/ pk.keynum # u.keynum), "C08", "public and secret key do not belong together"),
       V(good /\ (pk.key # Drop(u.sk, 32) \/ pk.keynum # u.keynum), "C02", "public and secret key do not belong together"),
       V("pkid" \in DOMAIN e /\ Hex(Field(e, "pkid", "")) # pk.keynum, "C08", "reported key id"),
       V("skid" \in DOMAIN e /\ Hex(Field(e, "skid", "")) # k.keynum, "C08", "reported key id"),
       V(good /\ e.drawn # "" /\ Field(e, "constrng", FALSE) = FALSE
           /\ ~DrawnFresh(Hex(e.drawn), Take(u.sk, 32), u.keynum, IF e.kind = "plain" THEN <<>> ELSE k.salt),
         "C07", "seed, key id and salt are not distinct draws of the random generator"),
       V(good /\ e.kind # "plain" /\ e.drawn # "" /\ Field(e, "constrng", FALSE) = FALSE /\ At(k.salt, Hex(e.drawn)) = {},
         "C06", "the salt was not drawn afresh"),
       V(good /\ e.kind # "plain" /\
           (\/ \E i \in 0..24 : Occurs(Slice(u.sk, i, 8), k.bytes)
            \/ \E i \in 0..24 : Occurs(Slice(pk.key, i, 8), k.bytes)
            \/ Occurs(u.keynum, k.bytes)
            \/ \E i \in 0..24 : Occurs(Slice(u.chk, i, 8), k.bytes)),
         "C06", "part of the key in the clear")
     }

(* ------------------------------------------------- passwords that are typed *)
(* e.entries: what was typed, one per prompt, as [k, t]; e.plan: what would have been; e.tty: what the terminal showed *)
Typing(e) == "entries" \in DOMAIN e
Entry(l, i) == i \in DOMAIN l /\ l[i].k = "text" /\ Len(Hex(l[i].t)) <= 1024
Twice(l) == Entry(l, 1) /\ Entry(l, 2) /\ l[1].t = l[2].t
JTyped(e) ==
  IF ~Typing(e) THEN {}
  ELSE LET shown == <<Hex(e.tty), Hex(e.out), Hex(e.err)>>
           visible(t) == Len(t) >= 6 /\ \E j \in DOMAIN shown : Occurs(t, shown[j])
       IN V(\E i \in DOMAIN e.entries : e.entries[i].k = "text" /\ visible(Hex(e.entries[i].t)), "C19", "what was typed was shown")
JTypedGen(e) ==
  IF ~Typing(e) THEN {}
  ELSE LET u == Opened(SkOfBytes(Hex(e.skb)), Hex(e.effpw)) IN
       UNION { V(Got(e) /\ ~Twice(e.entries), "C19", "a key was made although no password was confirmed"),
               V(Got(e) /\ Twice(e.entries) /\ Len(Hex(e.skb)) = SkLen /\ ~(u.ok /\ C!Usable(u)), "C19", "the key does not open with the password typed") }
Unfit(e) == Field(e, "ttyfault", FALSE)

JGen(e) == JTyped(e) \cup
           IF Got(e) THEN JKeyPair(e) \cup JTypedGen(e)
           ELSE UNION {V(Crash(e), "C10", "key generation crashed"),
                       VAll(~RngFailed(e) /\ ~Unfit(e), e.need, "key generation failed")}

(* ------------------------------------------------- generating and writing *)
WBad(log) == \E i \in DOMAIN log : log[i].k \in {"e", "fe"}
WStuck(log) == \E i \in DOMAIN log : log[i].k = "w" /\ log[i].n = 0
WIntr(log) == \E i \in DOMAIN log : log[i].k \in {"i", "fi"}
LastOf(log, ks) == LET S == {i \in DOMAIN log : log[i].k \in ks} IN IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Flushed(log) == LastOf(log, {"f"}) > LastOf(log, {"w", "i", "fe", "fi"})
(* what a piece of a secret key box holds in its sealed part, as far as it was written *)
SealedPart(w) ==
  LET nl == {i \in DOMAIN w : w[i] = 10} IN
  IF nl = {} THEN <<>>
  ELSE LET l == Drop(w, MinOf(nl))
           l2 == IF \E i \in DOMAIN l : l[i] = 10 THEN Take(l, MinOf({i \in DOMAIN l : l[i] = 10}) - 1) ELSE l
           d == B64Decode(Take(l2, (Len(l2) \div 4) * 4))
       IN IF d.ok THEN Drop(d.b, 54) ELSE <<>>
JGenW(e) ==
  LET pkw == Hex(e.pkw)
      skw == Hex(e.skw)
      pkb == Hex(e.pkb)
      skb == Hex(e.skb)
      l1 == e.pklog
      l2 == e.sklog
      faulty == WBad(l1) \/ WBad(l2) \/ WStuck(l1) \/ WStuck(l2)
      intr == WIntr(l1) \/ WIntr(l2)
      pkfull == IF e.kind = "plain" THEN pkw = pkb ELSE pkw = PkText(pkb)
      skfull == IF e.kind = "plain" THEN skw = skb
                ELSE IF e.hascomment THEN skw = SkText(Hex(e.comment), skb)
                ELSE IsSkText(skw, skb)
  IN JTyped(e) \cup IF Got(e) THEN
       UNION {
         JKeyPair(e), JTypedGen(e),
         V(faulty, "C13", "success although a writer failed"),
         V(~pkfull, "C13", "the public key was not written in full as returned"),
         V(~skfull, "C13", "the secret key was not written in full as returned"),
         V(~pkfull, "C15", "the written public key is not in the prescribed form"),
         V(~skfull /\ SingleLine(Hex(e.comment)), "C15", "the written secret key is not in the prescribed form"),
         V(e.kind # "plain" /\ SingleLine(Hex(e.comment)) /\ ~(Utf8(skw) /\ LET t == SkOfText(skw) IN t.ok /\ t.label = KdfSc /\ t.bytes = skb),
           "C06", "what was written is not the encrypted key"),
         V(~Flushed(l1) \/ ~Flushed(l2), "C13", "success although a writer was not flushed after the last write"),
         V(e.outlen > 0, "C14", "writing keys wrote to standard output")
       }
     ELSE UNION {
       V(Crash(e), "C10", "key generation crashed"),
       VAll(Typing(e) /\ ~faulty /\ ~intr /\ ~RngFailed(e) /\ ~Unfit(e), e.need, "key generation failed"),
       V(~faulty /\ ~intr /\ ~RngFailed(e) /\ ~Unfit(e), "C13", "failure although both keys could be written"),
       V(e.kind # "plain" /\ Field(e, "constrng", FALSE) = FALSE /\
         LET dr == Hex(e.drawn)
             se == SealedPart(skw)
         IN \E i \in 0..(Len(dr) - 8) : Occurs(Slice(dr, i, 8), se),
         "C06", "part of the key in the clear"),
       V(RngFailed(e) /\ (pkw # <<>> \/ skw # <<>>), "C07", "output although the random generator failed")
     }

(* --------------------------------------------------------------- public keys *)
NoFile(c) == c \in {"missing", "dir"}
JPkLoad(e) ==
  LET b   == Hex(e.in)
      exp == CASE e.carrier = "bytes" -> PkOfBytes(b)
               [] e.carrier = "b64" -> PkOfB64(b)
               [] e.carrier = "file" -> IF Utf8(b) THEN PkOfText(b) ELSE Bad
               [] NoFile(e.carrier) -> Bad
               [] OTHER -> PkOfText(b)
      \* not said: bytes after the 42nd; white space around bare base64
      free == \/ e.carrier = "bytes" /\ Len(b) # PkLen
              \/ e.carrier = "b64" /\ Trim(b) # b
  IN UNION {
       V((Crash(e) /\ (exp.ok \/ e.carrier # "pkfrom")) \/ Field(e, "dbgpanic", FALSE), "C10", "loading a public key crashed"),
       V(Got(e) /\ ~exp.ok /\ ~free, "C11", "a malformed public key was loaded"),
       V(e.carrier = "bytes" /\ Got(e) /\ Len(b) < PkLen, "C11", "a short public key was loaded"),
       V(~Got(e) /\ exp.ok /\ ~free, "C11", "a well-formed public key was not loaded"),
       VAll(~Got(e) /\ exp.ok /\ ~free, e.need, "a well-formed public key was not loaded"),
       V(Got(e) /\ exp.ok /\ (Hex(e.pkb) # exp.bytes \/ Hex(e.pkid) # exp.keynum), "C11", "the public key loaded is not the one in the text"),
       V(Got(e) /\ exp.ok /\ (Hex(e.pkb) # exp.bytes \/ Hex(e.pkid) # exp.keynum), "C08", "the public key loaded is not the one stored")
     }
JPkStore(e) ==
  LET b == Hex(e.pkb)
      exp == CASE e.carrier = "bytes" -> b [] e.carrier = "b64" -> B64Encode(b) [] OTHER -> PkText(b)
  IN UNION {
       V(Crash(e), "C10", "storing a public key crashed"),
       V(~Got(e), "C08", "storing a public key failed"),
       V(Got(e) /\ Hex(e.outb) # exp, "C15", "the stored public key is not in the prescribed form"),
       V(Got(e) /\ ~(LET p == CASE e.carrier = "bytes" -> PkOfBytes(Hex(e.outb)) [] e.carrier = "b64" -> PkOfB64(Hex(e.outb))
                                [] OTHER -> PkOfText(Hex(e.outb)) IN p.ok /\ p.bytes = b),
         "C08", "the stored public key does not read back")
     }
JPkFromSk(e) ==
  LET k == SkOfBytes(Hex(e.skb)) IN
  UNION {
    V(Crash(e), "C10", "deriving the public key crashed"),
    V(k.ok /\ C!Usable(k) /\ ~(Got(e) /\ Hex(e.pkb) = k.alg \o k.keynum \o SkPub(k)), "C08", "the regenerated public key is not that of the secret key")
  }

(* --------------------------------------------------------------- secret keys *)
JSkLoad(e) ==
  LET b    == Hex(e.in)
      pw   == Hex(Field(e, "effpw", e.pw))
      how  == CASE e.carrier = "bytes" -> "bytes" [] e.carrier \in {"ubox", "uboxfrom"} -> "plain" [] OTHER -> "pw"
      st   == IF how = "bytes" THEN SkOfBytes(b)
              ELSE IF (e.carrier = "file" /\ ~Utf8(b)) \/ NoFile(e.carrier) THEN Bad ELSE SkOfText(b)
      got  == SkOfBytes(Hex(e.skb))
      u    == CUnmask(st, pw)
      expok == CASE ~st.ok -> FALSE
                 [] how = "bytes" -> TRUE
                 [] how = "plain" -> C!OpensPlain(st)
                 [] how = "pw"    -> st.label = KdfSc /\ u.ok /\ C!Usable(u)
      q    == Params(st.ops, st.mem)
      orig == Field(e, "orig", "")     \* what the key was before its stored form was altered
      same == how = "pw" /\ u.ok => got.keynum = u.keynum /\ got.sk = u.sk
  IN UNION {
       V(Crash(e) \/ e.dbgpanic, "C10", "loading or displaying a secret key crashed"),
       \* what was stored from a key in memory must open again, as that key
       V(st.ok /\ how = "pw" /\ st.label = KdfSc /\ Excessive(st.ops, st.mem) /\ Field(e, "slow", FALSE), "C16",
         "a derivation was attempted with excessive parameters"),
       JTyped(e),
       V(Typing(e) /\ Got(e) /\ how = "pw" /\ st.label = KdfSc /\ ~(Entry(e.entries, 1) /\ expok), "C19",
         "a key opened that must not open with what was typed"),
       V(Field(e, "mustopen", FALSE) /\ ~Got(e), "C08", "a stored key does not open again"),
       IF ~Got(e)
       THEN VAll(expok /\ ~Field(e, "ttyfault", FALSE), e.need, "a key that should open was refused")
       ELSE IF ~got.ok \/ Len(Hex(e.skb)) # SkLen THEN V(TRUE, "C08", "the bytes of a secret key have the wrong size")
       ELSE IF how = "bytes"
       THEN V(st.ok /\ Hex(e.skb) # st.bytes, "C08", "the secret key loaded is not the one stored")
            \cup V(Hex(e.skid) # got.keynum, "C08", "reported key id")
       ELSE UNION {
         V(~st.ok, "C09", "something that is not a secret key was opened"),
         V(st.ok /\ how = "plain" /\ st.label # KdfNo, "C09", "a box not labelled as unencrypted opened without password"),
         V(st.ok /\ how = "pw" /\ st.label # KdfSc, "C09", "a box not labelled as encrypted opened with a password"),
         V(~C!Usable(got), "C09", "a key whose checksum does not match was returned"),
         V(st.ok /\ how = "pw" /\ st.label = KdfSc /\ ~q.ok, "C16", "excessive or unsupported scrypt parameters accepted"),
         V(st.ok /\ how = "pw" /\ st.label = KdfSc /\ ~q.ok, "C10", "excessive scrypt parameters accepted"),
         V(st.ok /\ how = "pw" /\ q.ok /\ ~(u.ok /\ C!Usable(u)), "C05", "opened with a password that is not the key's"),
         V(st.ok /\ how = "pw" /\ u.ok /\ C!Usable(u) /\ ~same, "C05", "opened to a different key"),
         V(st.ok /\ how = "pw" /\ u.ok /\ C!Usable(u) /\ (got.salt # st.salt \/ got.ops # st.ops \/ got.mem # st.mem \/ got.chk # u.chk \/ got.chkalg # st.chkalg),
           "C08", "opened key lost its encryption parameters or checksum"),
         V(st.ok /\ how = "plain" /\ Hex(e.skb) # st.bytes, "C08", "the secret key loaded is not the one stored"),
         V(orig # "" /\ got.keynum \o got.sk # Hex(orig), "C05", "an altered key opened to a different key"),
         V(Hex(e.skid) # got.keynum, "C08", "reported key id")
       }
     }
JSkStore(e) ==
  LET b == Hex(e.skb)
      o == Hex(e.outb)
      one == SingleLine(Hex(e.comment))
  IN UNION {
       V(Crash(e), "C10", "storing a secret key crashed"),
       V(~Got(e), "C08", "storing a secret key failed"),
       IF ~Got(e) THEN {}
       ELSE IF e.carrier = "bytes" THEN V(o # b, "C08", "bytes of the secret key") \cup V(o # b, "C15", "bytes of the secret key")
       ELSE IF ~one THEN {}
       ELSE UNION {
         V(~(LET r == SkOfText(o) IN r.ok /\ r.bytes = b), "C08", "the stored secret key does not read back"),
         V(~(IF e.hascomment THEN o = SkText(Hex(e.comment), b) ELSE IsSkText(o, b)), "C15", "the stored secret key is not in the prescribed form")
       }
     }

(* ---------------------------------------------------------------- signatures *)
Reports(e, sg) == /\ Hex(e.ucout) = sg.uc /\ e.hastc = sg.hastc /\ Hex(e.tcout) = sg.tc
                  /\ Hex(e.keynum) = sg.keynum /\ e.pre = (sg.alg = AlgED) /\ e.bonespre = e.pre
                  /\ Hex(e.bones) = sg.bones
JSigLoad(e) ==
  LET b   == Hex(e.in)
      exp == CASE e.carrier = "bones" -> SigOfBones(b)
               [] e.carrier = "file" -> IF Utf8(b) THEN SigOfText(b) ELSE Bad
               [] NoFile(e.carrier) -> Bad
               [] OTHER -> SigOfText(b)
      free == e.carrier = "bones" /\ Len(b) > SigLen
      alg == Hex(e.bones)
  IN IF Crash(e) THEN V(exp.ok \/ e.carrier # "from", "C10", "loading a signature crashed")
                      \cup VAll(exp.ok, e.need, "a well-formed signature was not loaded")
     ELSE IF ~Got(e) THEN UNION {
       V(exp.ok /\ ~free, "C11", "a well-formed signature was not loaded"),
       VAll(exp.ok /\ ~free, e.need, "a well-formed signature was not loaded")
     }
     ELSE UNION {
       V(~exp.ok /\ ~free, "C11", "a malformed signature was loaded"),
       V(~KnownAlg(Take(alg, 2)), "C04", "a signature with an unknown algorithm tag was loaded"),
       V(exp.ok /\ ~Reports(e, exp), "C11", "what is reported is not what was in the text"),
       V(exp.ok /\ (e.hastc # exp.hastc \/ Hex(e.tcout) # exp.tc), "C03", "the reported trusted comment is not the one in the text"),
       V(exp.ok /\ e.pre # (exp.alg = AlgED), "C04", "the signature is not reported as what its tag says"),
       V(exp.ok /\ exp.hastc /\ Hex(e.text) # SigText(exp), "C11", "the text form differs from what was loaded"),
       V(exp.ok /\ ~Reports(e, exp) /\ e.need # <<>>, "C02", "what is reported is not what was stored")
     }
JSigStore(e) ==
  LET o == Hex(e.outb)
      exp == SigFrom(e.sigsrc, Hex(e.sigb))
      bones == e.carrier = "bones"
      text == exp.hastc /\ SingleLine(exp.uc) /\ SingleLine(exp.tc)
  IN IF ~exp.ok THEN {}
     ELSE IF ~Got(e) THEN V(Crash(e) /\ (bones \/ text), "C10", "storing a signature crashed") \cup VAll(bones \/ text, e.need, "storing a signature failed")
     ELSE UNION {
       V(bones /\ o # exp.bones, "C15", "bare signature"), V(bones /\ o # exp.bones, "C02", "bare signature"),
       V(~bones /\ text /\ o # SigText(exp), "C15", "text of the signature"),
       V(~bones /\ text /\ o # SigText(exp), "C02", "text of the signature")
     }
JSigBones(e) ==
  LET exp == LET s == SigFrom(e.sigsrc, Hex(e.sigb)) IN IF s.ok THEN Cut(s) ELSE s IN
  IF ~exp.ok THEN {}
  ELSE IF ~Got(e) THEN V(Crash(e), "C10", "conversion crashed") \cup VAll(TRUE, e.need, "conversion failed")
  ELSE UNION {
    V(e.hastc \/ Hex(e.tcout) # <<>>, "C03", "a signature without comment reports one"),
    V(Hex(e.ucout) # <<>> \/ e.bonespre # e.pre \/ Hex(e.bones) # exp.bones \/ e.pre # (exp.alg = AlgED) \/ Hex(e.keynum) # exp.keynum, "C02", "conversion changed the signature")
  }

(* ------------------------------------------------------------------ equality *)
JEq(e, n) ==
  UNION {V(Crash(e), "C10", "comparison crashed"),
         V(e.a = e.b /\ ~e.eq, "C08", "equal keys compare as different"),
         \* keys are compared by their key material
         V(e.eq /\ (IF n = "pk" THEN Slice(Hex(e.a), 10, 32) # Slice(Hex(e.b), 10, 32) ELSE Slice(Hex(e.a), 62, 64) # Slice(Hex(e.b), 62, 64)),
           "C08", "different keys compare as equal")}

(* --------------------------------------------------------------------- clones *)
(* a clone shows what the value shows, and making it leaves the value as it was *)
JClone(e) ==
  UNION {V(Crash(e), "C10", "cloning crashed"),
         VAll(~Crash(e) /\ e.now # e.was, <<IF e.what = "sig" THEN "C02" ELSE "C08", "C18">>, "a clone is not the value it was made from"),
         VAll(e.left # e.was, <<"C18">>, "cloning changed the value")}

(* ---------------------------------------------------------------- all of them *)
Judge(e) ==
  IF e.res = "skip" THEN {}
  ELSE IF e.res = "abort" THEN V(TRUE, "C10", "the process died or did not return") \cup VAll(TRUE, e.need, "the process died or did not return")
  ELSE CASE e.op = "verify"     -> JVerify(e)
         [] e.op = "sign"       -> JSign(e)
         [] e.op = "gen"        -> JGen(e)
         [] e.op = "genw"       -> JGenW(e)
         [] e.op = "pk_load"    -> JPkLoad(e)
         [] e.op = "pk_store"   -> JPkStore(e)
         [] e.op = "pk_from_sk" -> JPkFromSk(e)
         [] e.op = "sk_load"    -> JSkLoad(e)
         [] e.op = "sk_store"   -> JSkStore(e)
         [] e.op = "sig_load"   -> JSigLoad(e)
         [] e.op = "sig_store"  -> JSigStore(e)
         [] e.op = "sig_bones"  -> JSigBones(e)
         [] e.op = "pk_eq"      -> JEq(e, "pk")
         [] e.op = "sk_eq"      -> JEq(e, "sk")
         [] e.op = "clone"      -> JClone(e)
         [] OTHER               -> {}
=============================================================================

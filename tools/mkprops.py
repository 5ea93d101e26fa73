#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (the single place where the property texts are edited)."""
import json, os
P = []
def prop(id, title, statement, over, text, tests, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=tests,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Verification accepts only what the key holder signed",
 "Verifying data against a public key succeeds only if the signature carries that public key's 8-byte identifier and is a valid, canonical Ed25519 signature by the matching secret key over exactly those data (over their BLAKE2b-512 digest for a pre-hashed signature, over the bytes themselves for a legacy one). Altering any bit of the data, of the signature, of the key identifier or of the key material makes verification fail, whatever the flags and whichever form the signature came in (text box, bare signature, box just returned by signing). Public keys that are all zero or encode the neutral element verify nothing.",
 ["inputs", "histories"],
 "all public keys, signature boxes (honest, spliced from several honest signatures, or made up), data and flags",
 "The tests check one wrong message ('test2') per key; no wrong key, wrong key id, altered signature bit, non-canonical scalar or degenerate public key is ever tried.",
 ["src/lib.rs", "src/crypto/ed25519.rs", "src/crypto/curve25519.rs", "src/crypto/sha512.rs", "src/crypto/blake2b.rs", "src/signature_bones.rs"],
 [("key id comparison and Ed25519 check", "src/lib.rs verify()"), ("S < L and degenerate key checks, verification equation", "src/crypto/ed25519.rs verify()"), ("prehash", "src/lib.rs prehash()")],
 [("signed history", "set of (key, data, comment) signed so far", "ghost: what callers passed to sign()")],
 ["verify()"])

prop("C02", "Every signature made with an unlocked key verifies",
 "For every usable secret key (freshly generated unencrypted, or opened from its box) and all data of any length, signing succeeds and the resulting signature verifies over the same data with the corresponding public key. This holds directly, after storing the box as text, bytes or a file and loading it back, and after conversion to a bare signature and back, for every single-line untrusted and trusted comment, including empty ones, ones with leading or trailing white space and non-ASCII ones, which also come back unchanged.",
 ["inputs", "histories"],
 "all keys, data lengths (notably around hash block, buffer and padding boundaries), single-line comments and carriers",
 "The tests sign only the four bytes 'test' with default comments, and never reload a signature they made; hash-block and buffer boundaries are not reached.",
 ["src/lib.rs", "src/signature_box.rs", "src/signature_bones.rs", "src/signature.rs", "src/crypto/ed25519.rs", "src/crypto/blake2b.rs", "src/crypto/sha512.rs"],
 [("sign()/verify()", "src/lib.rs"), ("to_string()/from_string()", "src/signature_box.rs"), ("conversions to and from SignatureBones", "src/signature_bones.rs")],
 (), ["sign()", "verify()", "SignatureBox::from_string/to_string"])

prop("C03", "The trusted comment is authenticated and bound to its signature",
 "A signature box carrying a trusted comment verifies only if the global signature is a valid, canonical Ed25519 signature by the same key over the data signature followed by exactly that comment; changing, truncating, extending (white space included) or transplanting the comment, the global signature or the data signature makes verification fail. The trusted comment reported or printed for a box that verified is byte for byte the one given when signing, and a signature without comment reports none rather than an empty or invented one. When signing without a given comment, the comment is 'timestamp:' followed by the current Unix time in seconds.",
 ["inputs", "histories"],
 "all boxes derived from one or several honest signatures by editing, swapping or dropping the comment and the two signatures",
 "The tests verify two fixed vectors with an intact comment; no altered or transplanted comment or global signature is ever tried.",
 ["src/lib.rs", "src/signature_box.rs", "src/signature_bones.rs"],
 [("comment signature check and presence match", "src/lib.rs verify()"), ("trusted_comment()", "src/signature_box.rs"), ("global signature creation", "src/lib.rs sign()")],
 (), ["verify()", "SignatureBox::trusted_comment()"])

prop("C04", "Legacy signatures are accepted only on explicit request",
 "A signature whose algorithm tag marks it as legacy (not pre-hashed) is never accepted unless the caller allows legacy signatures; when allowed, it is accepted exactly if it is otherwise valid over the data themselves. Pre-hashed signatures are treated the same whether or not legacy ones are allowed, the tag in the signature alone decides how the data are checked, signatures with any other tag are rejected when loaded, and signatures produced by this library are always tagged and reported as pre-hashed.",
 ["inputs", "configurations"],
 "all algorithm tags x allow-legacy flag x carrier (text, bare) x data, including relabelled signatures",
 "One legacy vector is verified with legacy allowed; rejection without the flag, relabelling and unknown tags are never tried.",
 ["src/lib.rs", "src/signature_box.rs", "src/signature_bones.rs"],
 [("allow_legacy check", "src/lib.rs verify()"), ("algorithm tag dispatch", "src/signature_box.rs from_string(), src/signature_bones.rs from_bytes()")],
 (), ["verify()", "is_prehashed()"])

prop("C05", "Only the right password opens an encrypted secret key, to the same key",
 "An encrypted secret key box opened with the password it was made with yields exactly the original key (key id, secret key, and hence the same public key). Opened with any other password (other than one scrypt itself cannot distinguish), it yields an error. If any byte of the stored key has been altered, opening it yields an error or the original key id and secret key, never a different key.",
 ["inputs", "histories"],
 "all passwords (empty, long, non-ASCII, NUL-containing, near misses), all key boxes with any supported KDF parameters, every altered byte",
 "Only the documentation example opens one encrypted key with its right password; wrong passwords, altered boxes, other parameters and empty passwords are never tried.",
 ["src/secret_key.rs", "src/keypair.rs", "src/helpers.rs"],
 [("scrypt stream XOR", "src/secret_key.rs encrypt()/xor_keynum()"), ("checksum check", "src/secret_key.rs from_box_()")],
 [("keynum_sk", "key id, secret key and checksum, encrypted as one unit", "src/keynum.rs KeynumSK")],
 ["KeyPair::generate_encrypted_keypair()", "SecretKeyBox::into_secret_key()", "SecretKey::from_file()"])

prop("C06", "Encrypted key pairs never leave the secret key in the clear",
 "Generating an encrypted key pair, whatever the password, returns and writes the secret key only in encrypted form: the stored key id, secret key and checksum are all masked with the scrypt stream derived from the password and a salt drawn afresh for that key, with the documented default cost (opslimit 1048576, memlimit 33554432), and the box is labelled as encrypted. No part of the seed, of the public key, of the key id or of the checksum appears unmasked in the secret key box.",
 ["inputs", "histories"],
 "all passwords, both generation functions, all generated keys",
 "The tests never look at a generated encrypted key.",
 ["src/keypair.rs", "src/secret_key.rs", "src/constants.rs"],
 [("generate_encrypted_keypair()", "src/keypair.rs"), ("encrypt()", "src/secret_key.rs")],
 (), ["KeyPair::generate_encrypted_keypair()", "KeyPair::generate_and_write_encrypted_keypair()"])

prop("C07", "Keys, key ids, salts and nonces are fresh; RNG failures are errors",
 "Every generated key pair takes its full 32-byte seed and 8-byte key id (and, if encrypted, its 32-byte salt) from the system random generator, so that none of them is constant, partly constant, repeated or shared between fields; signatures never reuse a nonce for different messages, including the data and comment signatures of one call. If the random generator fails at any point, the operation returns an error and no key, no signature and no output.",
 ["fault_sequences", "histories", "inputs"],
 "every random draw of every generation and signing operation failing in turn; long histories of generations and signatures",
 "Tests generate keys one at a time and never compare them, and no test makes the random generator fail.",
 ["src/keypair.rs", "src/lib.rs", "src/crypto/ed25519.rs"],
 [("getrandom calls", "src/keypair.rs, src/lib.rs sign()"), ("hedged nonce derivation", "src/crypto/ed25519.rs signature()")],
 (), ["KeyPair::generate_*()", "sign()"])

prop("C08", "Keys survive every serialization unchanged",
 "Any public or secret key converted to bytes, base64, a text box or a file and read back is the same key in every field that matters (identifier, key material, and, for secret keys, encryption parameters and checksum), whatever the single-line comment of the box. The public key regenerated from a usable secret key equals, identifier included, the one generated along with it.",
 ["inputs", "histories"],
 "all keys (including ones loaded from arbitrary bytes), all carriers and their compositions, all single-line comments",
 "The tests round-trip one random key through bytes, comparing only the key material, not the identifier, the parameters or the checksum.",
 ["src/public_key.rs", "src/secret_key.rs"],
 [("to_bytes/from_bytes/to_box/from_box/to_base64/from_base64/from_file", "src/public_key.rs, src/secret_key.rs"), ("from_secret_key()", "src/public_key.rs")],
 (), ["PublicKey", "SecretKey", "PublicKeyBox", "SecretKeyBox"])

prop("C09", "Encrypted, unencrypted and damaged secret keys are never confused",
 "A box labelled as unencrypted opens only through the unencrypted-key functions and without a password; a box labelled as scrypt-encrypted opens only through the password functions; any other encryption label is refused by both. A key whose checksum does not match its key id, secret key and algorithm tag is never returned by a box-opening function, and an in-memory key that is still encrypted or is corrupted cannot be used to sign.",
 ["inputs", "histories"],
 "all encryption labels x opening functions x passwords x corruption of every byte; all sequences of generate, box, open, sign",
 "One unencrypted key is refused by the password function and opened; unknown labels, corrupted checksums, encrypted keys through the unencrypted function and signing with a locked key are never tried.",
 ["src/secret_key.rs", "src/lib.rs"],
 [("kdf_alg dispatch and checksum check", "src/secret_key.rs from_box_()"), ("checksum check", "src/lib.rs sign()")],
 [("kdf_alg", "encryption label", "src/secret_key.rs SecretKey")],
 ["SecretKey::from_box()", "SecretKey::from_unencrypted_box()", "sign()"])

prop("C10", "Untrusted text never crashes the program",
 "Loading any text or bytes as a signature, public key or secret key through the functions that return a result, and then verifying, signing, opening, converting or displaying with whatever was loaded, returns a value or an error: it never panics, aborts, overflows or runs without bound. This includes empty, truncated, over-long, non-ASCII and base64-decodable but wrongly sized fields, and secret keys asking for excessive scrypt parameters, which are refused.",
 ["inputs"],
 "all texts and byte strings, all subsequent uses",
 "The tests load well-formed input and one over-long public key; malformed fields are never followed through to verification.",
 ["src/signature_box.rs", "src/signature_bones.rs", "src/signature.rs", "src/public_key.rs", "src/secret_key.rs", "src/lib.rs", "src/helpers.rs"],
 [("length and prefix checks", "src/signature_box.rs from_string()"), ("read_exact on cursors", "src/signature.rs, src/public_key.rs, src/secret_key.rs"), ("scrypt limits", "src/secret_key.rs encrypt(), src/helpers.rs raw_scrypt_params()")],
 (), ["all loading functions, verify(), sign()"])

prop("C11", "Texts are loaded exactly when well-formed, and reported faithfully",
 "A signature text is loaded if and only if it has at least four lines: 'untrusted comment: ' and any text; the strict base64 of a 74-byte signature with a known algorithm tag; 'trusted comment: ' and any text; the strict base64 of a 64-byte signature (white space around the two base64 fields and CR LF line ends are tolerated). A public key text is loaded if and only if its second line is the strict base64, in 56 characters, of a 42-byte key. What is loaded is reported as it was in the text: both comments, the key id and whether the signature is pre-hashed.",
 ["inputs"],
 "all texts up to the generator's bounds: every line missing, duplicated, re-terminated, every field re-encoded, resized, padded, spaced or re-tagged",
 "The tests load two fixed signatures and two public keys.",
 ["src/signature_box.rs", "src/signature_bones.rs", "src/public_key.rs"],
 [("line-oriented parser", "src/signature_box.rs from_string()"), ("from_box()/from_base64()", "src/public_key.rs")],
 (), ["SignatureBox::from_string()", "PublicKey::from_box()", "PublicKey::from_base64()", "accessors"])

prop("C12", "Results depend on the data stream's bytes, never on how it is read",
 "Signing and verifying give the same result for every way a reader splits the same bytes into reads, including one-byte reads and reads of any size around internal buffer sizes. If the reader reports an error at any point before the end of the data, signing and verifying return an error (an interrupted read may instead be retried): data cut short by an error are never signed or accepted as complete.",
 ["schedules", "fault_sequences", "inputs"],
 "all read schedules (sizes, interruptions, failures at any position, first or second pass) over data of any length",
 "The tests read four bytes from an in-memory cursor in one piece; no short read and no failing reader is ever used.",
 ["src/lib.rs", "src/crypto/blake2b.rs"],
 [("read loop", "src/lib.rs prehash()"), ("incremental hashing", "src/crypto/blake2b.rs update()"), ("read_to_end and output loop", "src/lib.rs verify()")],
 (), ["sign()", "verify()"])

prop("C13", "Key pair writing reports success only if both keys are fully written",
 "The functions that generate and write a key pair succeed only if the complete public key and the complete secret key have been delivered to their writers and both writers have been flushed afterwards without error; a writer that fails, stops accepting data or fails to flush, at any point, makes them return an error. What was written reads back as exactly the returned key pair, with the requested comment.",
 ["fault_sequences", "schedules", "crash_points"],
 "all writer behaviours: partial writes, interruptions, zero writes, failures after any number of bytes, failing flushes, on either writer",
 "No test calls the writing functions.",
 ["src/keypair.rs"],
 [("write_all and flush", "src/keypair.rs generate_and_write_encrypted_keypair(), generate_and_write_unencrypted_keypair()")],
 (), ["Write implementations passed in"])

prop("C14", "Verification outputs only verified data, and only when asked",
 "Verification writes to standard output nothing at all unless output was requested and the signature verified; then it writes exactly the bytes that were verified, from wherever the reader was positioned, and flushes them. On failure nothing of the data or of the trusted comment is printed; when quiet, nothing is written to standard error, and otherwise a successful verification prints there the verified trusted comment, if there is one.",
 ["inputs", "configurations", "schedules"],
 "all data lengths, reader start positions and read schedules x valid/invalid signatures x quiet/output/legacy flags",
 "No test requests output or captures what is printed.",
 ["src/lib.rs"],
 [("output after all checks, from the recorded position", "src/lib.rs verify()")],
 (), ["stdout and stderr of the process"])

prop("C15", "Everything produced follows the minisign format and interoperates",
 "Keys and signatures produced by this library are, byte for byte in structure, what the minisign format prescribes: field order and sizes, algorithm tags, little-endian limits, BLAKE2b-256 key checksum, Ed25519 public key of the stored seed, pre-hashed data signature, global signature over signature and comment, standard base64 lines with the prescribed prefixes, key id in hexadecimal in the public key comment. An independent implementation accepts them, and keys and signatures made by an independent implementation (encrypted secret keys, legacy signatures and signatures with deterministic nonces included) are accepted here.",
 ["inputs"],
 "all keys, data and comments; artefacts crossing in both directions between this library and the reference model",
 "Two fixed foreign signatures are verified; nothing this library produces is checked against anything but itself.",
 ["src/lib.rs", "src/public_key.rs", "src/secret_key.rs", "src/signature_box.rs", "src/signature.rs", "src/crypto/ed25519.rs", "src/crypto/blake2b.rs", "src/crypto/sha512.rs", "src/helpers.rs"],
 [("serialization", "to_bytes(), to_box(), to_string()"), ("crypto", "src/crypto")],
 (), ["to_bytes()", "to_box()", "to_string()", "verify()", "into_secret_key()"])

prop("C16", "Scrypt cost parameters are derived as specified and bounded",
 "For any opslimit and memlimit found in a secret key, the scrypt parameters used are those of libsodium's standard derivation (so that keys made elsewhere with any preset open here), and requests above opslimit 33554432, memlimit 1073741824 or 2^20 rounds are refused with an error before any derivation is attempted, as are combinations scrypt does not support.",
 ["inputs", "configurations"],
 "all pairs of 64-bit limits; every pair within the bounds that changes the derived parameters, and values at and around every threshold",
 "Only the default limits are ever used.",
 ["src/helpers.rs", "src/secret_key.rs"],
 [("raw_scrypt_params()", "src/helpers.rs"), ("limits", "src/secret_key.rs encrypt(), src/constants.rs")],
 (), ["SecretKeyBox::into_secret_key()"])

prop("C17", "Signing refuses a public key that does not match the secret key",
 "When a public key is given to the signing function, signing succeeds only if the signature it returns verifies under that public key's key material; given the key material of any other key it returns an error and no signature. Giving the matching public key changes nothing else: same key id, same comments, same data coverage as when none is given.",
 ["inputs", "histories"],
 "all pairs of secret and public keys, including ones differing in a single bit, degenerate ones and ones sharing a key id",
 "No test passes a public key to the signing function.",
 ["src/lib.rs"],
 [("self-check of the global signature", "src/lib.rs sign()")],
 (), ["sign()"])

prop("C18", "Outcomes depend only on the arguments, not on earlier or concurrent use",
 "Keys, boxes and signatures are plain values: using, cloning, converting, failing with or dropping one never changes the outcome of any later or concurrent operation on the others. Every call in any sequence, and in any interleaving across threads, gives the outcome that the same call gives in isolation.",
 ["histories", "schedules"],
 "all sequences of library operations over several keys, signatures and data, and all interleavings over threads",
 "Each test performs a handful of calls with a single key and no concurrency.",
 ["src/lib.rs", "src/secret_key.rs", "src/public_key.rs", "src/signature_box.rs", "src/crypto/blake2b.rs"],
 [("absence of global state; value types", "whole crate")],
 (), ["whole API"])

prop("C19", "Interactive passwords behave like given ones, and must be confirmed",
 "When no password is given, one is read from the terminal without echo; generating a key asks twice and succeeds only if both entries are equal and at most 1024 bytes long, and the resulting key opens with exactly that password, given or typed. Nothing typed is printed, and an end of input in place of an entry, an interruption, a missing terminal or an over-long entry is an error, not a key.",
 ["inputs", "histories"],
 "all pairs of typed entries (equal, different, empty, at and above the length limit, end of input) for generation and opening",
 "No test exercises interactive entry.",
 ["src/keypair.rs", "src/secret_key.rs", "src/helpers.rs"],
 [("get_password()", "src/helpers.rs"), ("double entry", "src/keypair.rs generate_encrypted_keypair()"), ("prompt", "src/secret_key.rs from_box_()")],
 (), ["terminal of the process"])

prop("C20", "What is published, printed or reported reveals no secret",
 "Nothing the library makes public gives away a secret: public keys, signatures, encrypted secret key boxes, what is printed, and the text of every error contain no part of a secret key's seed and no password, neither as bytes nor in hexadecimal, base64 or decimal; and no mask of an encrypted key and no signing nonce is used for two different values, which would let anyone compute the secret. (Forms of a secret key that the caller asks for, unencrypted boxes, byte strings and debug output of a secret key, are the secret and are not covered.)",
 ["inputs", "histories", "faults"],
 "all keys and passwords, all histories of making, opening (rightly and wrongly), signing, deriving and failing, and everything they produce",
 "No test looks at what an error or an artefact reveals.",
 ["src/lib.rs", "src/secret_key.rs", "src/keypair.rs", "src/public_key.rs", "src/errors.rs", "src/helpers.rs"],
 [("encryption of the key", "src/secret_key.rs encrypt()"), ("error texts", "src/errors.rs and their uses"), ("derivation of the public key", "src/public_key.rs from_secret_key()"), ("nonces", "src/lib.rs sign(), src/crypto/ed25519.rs")],
 (), ["whole API"])

prop("C21", "Memory in proportion to what was asked, and nothing left behind",
 "Signing, and verifying a pre-hashed signature with or without output, take memory that does not grow with the amount of data; verifying a legacy signature takes memory at most proportional to it. Loading, storing and converting keys and signatures take memory, and allocate in all, at most in proportion to the length of the text, whatever is in it; opening or making an encrypted key takes in addition no more than scrypt with its parameters, and nothing where these are refused. When calls have returned, successfully or not, and their results were dropped, nothing remains of them that grows with their number: no memory, no open file, no thread.",
 ["inputs", "histories", "faults"],
 "all amounts of data, all texts and parameters, all histories of calls, successful and failing at any point",
 "Tests use a few bytes of data, well-formed texts, and few calls, and do not look at memory.",
 ["src/lib.rs", "src/helpers.rs", "src/signature_box.rs", "src/secret_key.rs", "src/public_key.rs", "src/crypto/blake2b.rs"],
 [("prehash(), verify_prehashed(), output", "src/lib.rs and src/helpers.rs"), ("legacy data", "src/lib.rs verify()"), ("parsing", "src/signature_box.rs, src/secret_key.rs, src/public_key.rs"), ("scrypt parameters", "src/secret_key.rs")],
 (), ["whole API"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")

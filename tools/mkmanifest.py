#!/usr/bin/env python3
"""Generates /verif/MANIFEST.json: claims every property that has a check in tools/props."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "C01": "Core/Forge.tla exhaustively model checked (Dolev-Yao edits of stored signatures); every abstract scenario and a systematic corruption corpus replayed into the real library; each recorded call judged by TLC against Judge.tla over concrete bytes. Bounded scopes; trusts the Java oracle for the primitives.",
 "C02": "Real sign/store/load/convert/verify behaviours for all boundary lengths, comments and carriers, each call judged by TLC against Judge.tla. Sampled keys; trusts the Java oracle.",
 "C03": "Forge.tla (comment binding, splices) model checked and replayed; systematic corruption of comment and global signature; clock model for the default comment; TLC judges each call.",
 "C04": "Forge.tla over all tags and flags model checked and replayed; TLC judges each call, including acceptance under the other interpretation.",
 "C05": "Keys.tla (lifecycle of a stored key, every single and double alteration) model checked and replayed; single-bit sweeps of stored keys; TLC judges each call with an independent scrypt.",
 "C06": "Generated encrypted key pairs (returned and written) are unsealed by the specification with an independent scrypt over the recorded random draws; TLC judges each.",
 "C07": "Rng.tla (nonce designs, stuck and failing generators) model checked and its behaviours replayed with the system random generator replaced; TLC accumulates nonces and random values over each history.",
 "C08": "Keys.tla model checked and replayed; every carrier, comment and parameter combination stored and read back; TLC judges each call. One known finding (D8).",
 "C09": "Keys.tla (all labels, damages and functions) model checked and replayed; TLC judges each call.",
 "C10": "Text.tla's edited texts, systematic and random corruption of every carrier, loaded and then used in every way, with overflow checks on and off, each process under time and memory limits; TLC judges each call. Bounded sample of texts.",
 "C11": "Text.tla (the grammar of the texts, all edits up to a bound) model checked and replayed, with independent line and base64 rules in the specification; TLC judges each load in both directions (accepted iff well-formed) and what is reported. Bounded texts.",
 "C12": "Stream.tla (reads, faults, seeks, two passes) model checked with unsafe designs shown to fail, and replayed with scheduled readers; splits around internal buffers and a failure at every point; TLC judges each call and compares calls over the same bytes.",
 "C13": "Writers.tla (two writers, partial writes, interruptions, failures, flushes) model checked with unsafe designs shown to fail, every behaviour and a failure at every byte replayed with scheduled writers; TLC compares what the writers received with what was returned.",
 "C14": "Stream.tla (output pass, flush, faults) model checked and replayed with standard output and error captured at the file descriptors; TLC compares what was printed with what was verified.",
 "C15": "Interop.tla model checked; keys and signatures cross between the library and an independent implementation of minisign in both directions over all carriers; TLC judges the exact bytes and texts produced by the library against formats written out in TLA+.",
 "C16": "KdfMC.tla: the derivation over a grid with both sides of every threshold, checked against a second formulation and for its bounds; each affordable point replayed with keys sealed by an independent scrypt, each refused one must be refused without work.",
 "C17": "Pair.tla (which public key is given, foreign public halves, faults) model checked with unsafe designs shown to fail and replayed; every bit of the public key flipped; TLC verifies each returned signature under the key given.",
 "C18": "Hist.tla (histories and interleavings of calls that share values, with interleaving at read, draw and write points) model checked and replayed with real threads parked at those points; TLC compares each outcome with that of the same call alone. System.tla (the whole library as one state machine; five unsafe designs) model checked, long behaviours of it carried out and equal calls compared. Interleaving at the granularity of reads, draws and writes only.",
 "C19": "Prompt.tla (all pairs of typed entries, end of input, interruption, hang-up) model checked with unsafe designs shown to fail; each behaviour typed at a pseudo terminal of the real process; TLC compares what was typed with what the keys open with and looks for it in everything shown. Unix terminals only.",
 "C20": "Secrets.tla (closure of what an onlooker sees under Dolev-Yao rules; nine unsafe designs shown to fail) model checked and its behaviours replayed; TLC collects the secrets of each history and looks for them, in several encodings, in every public output, message and error, and for masks and nonces used twice. Does not show indistinguishability or absence of side channels.",
 "C21": "Memory.tla (what calls hold while they run and when they returned; seven wasteful designs shown to fail) model checked, its behaviours replayed with data of many MiB in a driver whose allocator counts; long texts of many shapes; every call thousands of times; TLC compares what was taken with what was asked. Heap memory of the process; limits with slack (4 MiB for streamed data).",
}
TECH = {
}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if os.path.exists(os.path.join(V, "tools", "props", i.lower() + ".py")) and i in NOTE:
        checks.append(dict(property=i, quick_cmd=f"python3 tools/check.py {i}",
                           thorough_cmd=f"VERIF_TIER=thorough python3 tools/check.py {i}",
                           technique=TECH.get(i, "TLA+ specification checked with TLC; its behaviours replayed into the real library; recorded traces validated by TLC"),
                           level="model_checking", level_note=NOTE[i]))
    else:
        na.append(dict(property=i, reason="check under construction"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="TLA+/TLC. No hooks in /repo: everything is observed through the public API. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

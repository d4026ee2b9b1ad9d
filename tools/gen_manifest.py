#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TRUST = "Trusts the reference model in mc/harness/src (written from the property texts, not from the code) and the shims for the two unreachable git crates (farmhash, the regex-automata pool)."
T = "exhaustive bounded exploration of the real code against an executable reference model"
N = {
 "C01": "Every string over 1-4 byte characters, all action pairs, multi-string events and size sweeps within the bounds in evidence.",
 "C02": "As C01, comparing every reported field in UTF-8, UTF-16 and code-point encodings.",
 "C03": "Every ordered triple/quadruple of interval rules, mutating or not, over up to 5 (thorough 8) positions.",
 "C04": "Every string up to the bound for patterns with validators, excluded keywords and neighbouring rules.",
 "C05": "Every scope of up to 2 include and 2 exclude paths over 21 paths against every event path up to depth 3-5.",
 "C06": "Every assignment of texts to strings, exclude masks, multi-pass on/off, and every history of up to 4 scans.",
 "C07": "Every string up to length 6-8 for some ninety keyword configurations; every look-ahead 1..50 x every distance.",
 "C08": "Every string up to length 6-8 for some hundred keyword configurations; every look-ahead 1..50 x every distance.",
 "C09": "Every field up to length 5-6 over the separator alphabet, paths up to 3-4 segments, scans with path keywords on and off.",
 "C10": "Every blocked list of up to two indices against the scanner built without those rules, over every pair of short strings.",
 "C11": "Every action x every matched text up to the bound over 1-4 byte characters; hashes against an independent farmhash fingerprint.",
 "C12": "Every digit string / near-valid identifier in the bounds, with every check digit and every single-character corruption, against independent checksum code.",
 "C13": "Every checksum suffix, country and segment corruption in the bounds; JWT expiry against a controlled clock at and around the expiry instant.",
 "C14": "Every class x every scalar of the bound, every scalar as literal, every grammar term up to size 4-5 and every pattern string up to length 4-6 over four syntax alphabets, each on every short text, against an independent parser and matcher.",
 "C15": "Every string up to length 4-7 over seven syntax alphabets, every nesting depth and quantifier bound around the limits, every property name; verdict and error kind against the reference parser, builder and estimate consistency.",
 "C16": "Every grammar term and pattern string in the bounds in six rule variants on every short text, long repetitive texts; hang, memory and empty-match detection.",
 "C17": "Every combination of keyword lists, counts, look-aheads, actions and patterns around every limit, singly and in rule lists, verdict, error kind and numeric code against the reference; nothing observable changes on failure.",
 "C18": "Every configuration value in the bounds and every subset of omitted, null or mistyped fields, written and read back, with scanner behaviour compared.",
 "C19": "Every history of builds, scans and drops to depth 4-5 in a forked process per state, clean-ups of the shared store at every offset; every live scanner checked in every state.",
 "C20": "Every schedule with up to 2-3 deviations of all pairs and 1-2 of all triples of ten thread programs, unbounded for tiny ones, with store clean-ups due in the middle; one process per execution under a controlled scheduler.",
 "C21": "Every history to the bound with all counters and gauges compared in every state; every schedule with up to 2-4 deviations of concurrent builds and drops.",
 "C22": "Every combination of answers, failures and answer orders of 1-4 endpoints, several matches, mixed rule lists, header templates and AWS id x secret answer matrices, served by a loopback server that records the requests; AWS signatures verified independently.",
 "C23": "Every event tree in the bounds encoded, scanned through the bindings' event and decoded by an independent decoder, against the in-memory scan and the reference model.",
 "C24": "Every legal call sequence of 6-8 C calls from several starting states, every short byte string as an event, and schedules of concurrent calls, under a checking allocator (double release, wrong size, leak, use after release) against a model of the handles.",
 "C25": "The real Go package linked with the library built from the tree: every map and byte event in the bounds, every constructor setting, every sequence of 5-6 scanner operations, against the reference model.",
 "C26": "Every tree of maps, lists and scalars in the bounds for four event types; the visitor's pushes and pops monitored, results against the reference model.",
 "C27": "Every custom or regex rule of 64 alone, pairs and triples, x options, labels, blocked rules and sequences of up to four scans on two scanners; every call of a custom rule recorded and compared.",
}
TECH = {}
import importlib.util
extra = os.path.join(os.path.dirname(os.path.abspath(__file__)), "manifest_extra.json")
if os.path.exists(extra):
    x = json.load(open(extra)); N.update(x.get("notes", {})); TECH.update(x.get("technique", {}))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
if os.path.exists(extra): NA.update(x.get("not_applicable", {}))
m = {"version": 1, "setup_cmd": "bash setup.sh",
 "hooks": {"guard": "cfg(sds_verif)", "enable": "mc/sds/build.rs and mc/gobind/build.rs set --cfg sds_verif when the harness builds /repo/sds/src and /repo/sds-go/rust/src",
           "source_commits": ["f6c8a82e6c78d6dff8b941aa0a1d232cf5005215", "84b88c1b112e37ff1c20ec8421ee9c67fe280420"]},
 "checks": [dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"VERIF_TIER=thorough ./check {i}", evidence_file=f"evidence/{i}.json",
    technique="model checking: " + TECH.get(i, T), level="model_checking", level_note=N[i] + " " + TRUST) for i in ids if i in N],
 "not_applicable": [dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in N]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")

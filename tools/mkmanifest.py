#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties that have a check."""
import json, os, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
TRUST = ("Bounded: exhaustive only for the stated small constants, sampled beyond them. Trusts TLC, the JSON bridge and "
         "the harness that drives the real code; expectations come from the TLA+ specification only. ")
LEVEL = {
 "C01": "TLC checks that the byte layout refines a list for all small pages; one history per transition of the abstract page and long random histories are run on real pages and validated by TLC against the list specification. ",
 "C02": "As C01, with acceptance, advertised size, unchanged page on refusal and guard zones validated by TLC against the capacity rule at every step. ",
 "C03": "TLC enumerates types with every choice of enum cases (all bounded shapes, checked for soundness of the format on each); these and random types and values are marshalled and read back by the real code and TLC validates what was read. ",
 "C04": "The announced size is computed by the TLA+ row format; buffers of exactly that size, larger and smaller ones, all between guard zones, are marshalled into and every observation is validated by TLC. ",
 "C05": "The bytes of each row, bit for bit where the format defines them, are computed by the TLA+ row format and compared by TLC with what the real code wrote. ",
 "C06": "Recorded write/read round trips in the real code, TLC requires the same value at every path; boundary numbers, all character classes, and random types and values. ",
 "C07": "Recorded encodings with writers that take bytes piecewise, are interrupted or fail at any position; TLC parses the bytes with an independent UTF-8/JSON grammar and requires the denoted value, the same bytes and reported errors. ",
 "C08": "A TLA+ JSON lexer, parser and denotation decides every text; texts are all short token and character sequences and edits enumerated by TLC, documents in random form, near misses and broken texts; containers hold previous values. ",
 "C09": "A TLA+ recogniser and printer of the type language (checked by TLC to be inverse on all bounded types) decides texts enumerated by TLC and random ones; the real parser's result is validated by TLC. ",
 "C10": "TLA+ definition of paths, names and their order (order laws and the name/path bijection checked by TLC on all bounded types and paths); recorded uses of the real Path and Type functions validated by TLC. ",
 "C11": "TLA+ lexer and precedence grammar of SQL expressions; texts are all bounded operator combinations and token sequences enumerated by TLC (each printed tree is checked to parse back to itself) and random trees, near misses and broken texts; TLC parses each text and requires the real parser's tree. ",
 "C12": "TLA+ grammar of SQL statements; statements with every choice of optional clauses enumerated by TLC, random statements, near misses; TLC parses each text and requires the real parser's tree or a refusal. ",
 "C13": "The TLA+ lexer decides keyword/identifier boundaries; words, case mixtures and spacings enumerated by TLC; parsed statements, symbol equality and symbol order of the real code validated by TLC. ",
 "C14": "TLA+ catalog map specification; every reachable catalog over a small universe enumerated by TLC and replayed (including save and load), random histories; every answer validated by TLC. ",
 "C15": "TLA+ typing rules; every operator over every combination of operand types and nullabilities enumerated by TLC (type laws checked on each), random nested expressions in random scopes; inferred types of the real code validated by TLC. ",
 "C16": "TLA+ scoping rules; bounded queries over all small scopes enumerated by TLC (scoping laws checked on each), random statements against random catalogs; resolved columns, result columns and verdicts of the real code validated by TLC. ",
 "C17": "TLA+ model of the pool's design (exclusion, content, conservation and progress checked by TLC over all interleavings of small pools); a shortest schedule to every transition of it and random schedules are run by real clients of the real pool, stopped at every suspension point; TLC validates every grant and release against the abstract pool. ",
 "C18": "As C17: every byte pattern seen on access and release must be the one the abstract pool holds for the location (the store is a stand-in that delivers in two steps). ",
 "C19": "As C17: whenever nothing can run any more, every request still waiting must be one the abstract pool allows to wait; panics, hangs and unfinished releases are rejected. ",
 "C20": "TLA+ specification of locations, identifiers, sizes and rounding on byte and bit sequences (packing and rounding tricks checked by TLC on all small words); TLC-enumerated and random calls of the real functions validated by TLC. ",
 "C21": "TLA+ reading of a volume image (header, file table, attributes, extents, bitmap); TLC checks that a reference layout is accepted for all small parameters and that no change of a meaningful byte is; images made by the real code for TLC-enumerated and random parameters are validated by TLC. ",
 "C22": "TLA+ map specification; every reachable container state over a small universe enumerated by TLC and replayed, long random histories, every answer validated by TLC. ",
}
TECH = {
 "C01": "TLA+ refinement check and TLC trace validation of page histories",
 "C02": "TLA+ capacity model, TLC trace validation of page histories",
 "C03": "TLA+ row format, TLC-generated types, TLC trace validation of recorded rows",
 "C04": "TLA+ row format (sizes), TLC trace validation of recorded buffers",
 "C05": "TLA+ row format (bytes), TLC trace validation of recorded rows",
 "C06": "TLC trace validation of recorded JSON round trips",
 "C07": "TLA+ JSON grammar and denotation, TLC validation of recorded writes under faults",
 "C08": "TLA+ JSON grammar and denotation, TLC-generated texts, TLC trace validation",
 "C09": "TLA+ grammar of types, TLC-generated texts, TLC trace validation",
 "C10": "TLA+ specification of paths checked by TLC, TLC trace validation",
 "C11": "TLA+ grammar of SQL expressions, TLC-generated texts, TLC trace validation",
 "C12": "TLA+ grammar of SQL statements, TLC-generated texts, TLC trace validation",
 "C13": "TLA+ SQL lexer, TLC-generated texts, TLC trace validation",
 "C14": "TLA+ catalog specification, TLC-generated histories, TLC trace validation",
 "C15": "TLA+ typing rules, TLC-generated expressions, TLC trace validation",
 "C16": "TLA+ scoping rules, TLC-generated queries, TLC trace validation",
 "C17": "TLA+ design model checked by TLC, TLC-generated schedules, TLC trace validation",
 "C18": "TLA+ design model checked by TLC, TLC-generated schedules, TLC trace validation",
 "C19": "TLA+ design model checked by TLC, TLC-generated schedules, TLC trace validation",
 "C20": "TLA+ arithmetic of locations and sizes, TLC-generated calls, TLC trace validation",
 "C21": "TLA+ specification of volume images checked by TLC, TLC validation of recorded images",
 "C22": "TLA+ map specification, TLC-generated histories, TLC trace validation",
}
NA = {}
props = [json.loads(l) for l in open(HERE + "/../properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in LEVEL:
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "technique": TECH[i], "level": "model_checking", "level_note": LEVEL[i] + TRUST})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet")})
hooks = {"guard": "cfg(cathlamet_verif)", "enable": "RUSTFLAGS='--cfg cathlamet_verif' cargo build --offline (lib/vf.py build)",
         "source_commits": [c for c in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines() if " hook:" in c]}
hooks["source_commits"] = [c.split()[0] for c in hooks["source_commits"]]
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "hooks": hooks, "checks": checks, "not_applicable": na},
          open(HERE + "/../MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

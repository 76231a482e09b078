#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed checks below."""
import json
STRUCT = ("Explicit-state exploration: exhaustive enumeration of the grammar's derivations up to a token bound and of all bounded "
          "deviations from them (repetition, nesting, leaf values, token edits, part substitution, section pairs), each document "
          "replayed through the real parser and compared with an independent reference semantics")
T = {
    "C01": STRUCT, "C02": STRUCT, "C03": STRUCT, "C04": STRUCT, "C05": STRUCT, "C06": STRUCT, "C07": STRUCT, "C08": STRUCT,
    "C09": "Explicit-state exploration: exhaustive enumeration of layouts (every separator at every gap, all pairs of gaps of short documents, uniform layouts) of bounded documents, each replayed through the real parser and compared with the meaning of its token sequence",
    "C10": "Explicit-state exploration: exhaustive substitution of every word position of bounded documents by every identifier and every glued, cut or exchanged keyword, each document replayed through the real parser and compared in both directions with an independent reference semantics",
    "C11": STRUCT + "; here the documents the reference refuses, plus every token string up to a length",
    "C12": "Explicit-state exploration of the implementation: exhaustive enumeration of texts (all short strings, all code points, all single-character edits and cuts, size sweeps, repeated units, nestings) run through every entry point under panic handlers, a watchdog and process supervision",
    "C13": "Explicit-state exploration: exhaustive product of constructs, layouts, preceding and following texts, each run through every call form of the real parser and compared with true positions and reference meanings",
    "C14": "Explicit-state exploration: exhaustive enumeration of literals, of (thorough: all 2^32) bit patterns, integers, doubles and value pairs, each run through the real code and compared with exact arithmetic",
    "C15": "Explicit-state exploration of the implementation: all histories of name creations to a depth over a small alphabet of operations, all orders of entry into the intern table, all pairs of texts through all pairs of constructors, families of long histories, each run from the pristine process state in a process of its own and compared with a model in which a name is its text; with interning on and off",
    "C16": "Stateless model checking of the implementation: all thread interleavings up to a preemption bound (all of them for pairs of name creations), under a controlled scheduler, of programs of two to five threads over the library's own unmodified source compiled against stand-in synchronisation primitives whose every operation is a scheduling point, each execution from a restored pristine process state and compared with what each operation gives alone",
    "C17": "Explicit-state exploration: all pairs, all lists to a length and all 2^21 sets of requirements, run through the real code and compared with the documented table",
    "C18": "Explicit-state exploration: exhaustive enumeration of texts around every keyword (all edits, gluings, all short strings), following every conversion, comparison and parser of the real code from each",
    "C19": "Explicit-state exploration: every public construction and conversion applied to every tuple of its argument pools, every builder-method sequence to a depth and every order of all builder methods, each result read back every way and compared with a term-algebra model executed alongside",
    "C20": "Explicit-state exploration of the implementation: all ordered pairs and triples of parse calls over a corpus, all one-token neighbours and beginnings of every text before and after it, all pairs of entry points on one text, all-pairs and whole-corpus histories in many orders, and repetition, each history run from the pristine process state in a process of its own and every outcome compared with the outcome of the call alone; with interning on and off",
    "C21": "Explicit-state exploration of the implementation: exhaustive enumeration of families of texts (every construct of bounded documents repeated, every element put around itself, every cycle of recursive productions to a length, with every kind of ending), each member run through the real code built with a counter on every region, and the growth from size to size compared with a quadratic bound",
    "C23": "Explicit-state exploration: exhaustive comparison of all pairs of values in bounded sets (every construct's documents with all their one-edit neighbours, corpora of every construct, constructed values of every public type), each pair compared by the real code both ways, as originals and copies, with the comparison of their contents; with interning on and off",
    "C24": "Explicit-state exploration: exhaustive enumeration of refused texts (all one-token edits, insertions, cuts by tokens and by characters, layouts, characters around constructs, all short strings), each given to the real parser in every call form, alone and in the middle of a text, and every position of every error compared with the text and between the forms",
    "C22": "Explicit-state exploration of the implementation in all four feature configurations: every case of bounded sets (name histories, constructions, requirements, keywords, value pairs) run in each build against one common model, every parse of bounded texts run in the build with and the build without interning and the outcomes compared",
}
NOTE = "Bounded-exhaustive: every document within the stated bounds; exact bounds of each run are in the evidence file."
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks = [{"property": p["id"], "quick_cmd": f"bash /verif/run.sh {p['id']} quick", "thorough_cmd": f"bash /verif/run.sh {p['id']} thorough",
           "technique": T[p["id"]], "level": "model_checking", "level_note": NOTE} for p in props if p["id"] in T]
na = [{"property": p["id"], "reason": "check under construction"} for p in props if p["id"] not in T]
m = json.load(open('/verif/MANIFEST.json'))
m["checks"] = checks
m["not_applicable"] = na
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)

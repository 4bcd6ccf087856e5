#!/usr/bin/env python3
"""Writes MANIFEST.json. Run by hand; not part of any check."""
import json, subprocess
LEX = "exhaustive enumeration of all source texts over bounded alphabets, run through the real tokenizer and an explicit-state reference lexer, compared token by token"
TREE = "exhaustive depth-first search over all token sequences up to a bound, run through the real parser and a reference recursive-descent model, compared tree by tree"
T = {
 "C09": "exhaustive enumeration of bounded texts, program prefixes and nestings on the real tokenizer and parser, each run monitored for panic, process death, hang and finality of end of file",
 "C21": "exhaustive enumeration of bounded programs on the real parser; leaves of every returned tree compared with the token stream",
 "C22": "exhaustive enumeration of bounded programs on the real parser; an invariant on every node's span checked in every returned tree",
 "C23": "exhaustive enumeration of all one-token and one-line edits of a program corpus and of all short token sequences, real parser against reference model",
 "C24": "exhaustive enumeration of all layout variants at every position of a program corpus; trees compared with each other and with the reference model",
 "C25": "exhaustive enumeration of statement pairs, nestings and expression contexts, and of all interleavings of parser steps up to a bound, on the real code",
 "C26": "exhaustive exploration of all states and operations of the real character cursor against a direct model",
 "C29": "exhaustive enumeration of one-token edits, bad tokens and truncations of a program corpus on the real parser; the place named in every error compared with the window the reference model computes",
 "C30": "exhaustive enumeration of bounded programs and layouts on the real parser; every source rebuilt from the tokens and trivia of its returned tree",
 "C28": "exhaustive enumeration of a lexical error at every position of a program corpus and in every bounded token sequence, on the real parser",
}
N = {
 "lex": "Every text within the stated alphabets and lengths is run on the real code; trusts the reference lexer mc/src/reflex.rs and assumes that longer texts bring no new behaviour beyond the length ladders explored.",
 "tree": "Every token sequence within the stated alphabets and depths is run on the real code (prefixes are cut only when model and implementation have both already failed on tokens no continuation can change); trusts the reference grammar mc/src/refparse.rs.",
}
checks = []
for i in range(1, 31):
    id = "C%02d" % i
    checks.append({"property": id, "quick_cmd": "bash run.sh %s quick" % id, "thorough_cmd": "bash run.sh %s thorough" % id,
      "technique": "model checking: " + T.get(id, LEX if i <= 8 or i == 27 else TREE), "level": "model_checking",
      "level_note": N["lex" if i <= 9 or i in (26,) else "tree"]})
h = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "0142463"], text=True).strip()
m = {"version": 1, "setup_cmd": "bash run.sh build",
 "hooks": {"guard": "pycore_verif", "enable": "RUSTFLAGS=\"--cfg pycore_verif\" (set by run.sh when it builds mc, which depends on /repo by path)", "source_commits": [h]},
 "checks": checks, "not_applicable": [],
 "notes": "One checker (mc/) decides all properties; see DESIGN.md. Known findings and repairs are in known_findings.txt."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)

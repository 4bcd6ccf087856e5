#!/usr/bin/env python3
"""Writes known_findings.txt. The list of pairs is fixed here; nothing is added at run time."""
TEXT = {
 "crlf": "a CR LF line break is read as three characters: the newline token or trivia also swallows the character after it (existing tests fix the three-character span)",
 "params": "a function definition with a non-empty parameter list is rejected (the parameter list parser is a stub that returns an error)",
 "bare_yield": "a yield without a value is rejected (the YieldExpr node has no form without a value)",
 "star_rhs": "a starred item on the right-hand side of an assignment is rejected (`a = *b`: the right-hand side is read as testlist, whose TestList node existing tests fix)",
 "with_paren": "a with statement whose first item is an expression starting with a parenthesis is read as a parenthesised item list, and rejected when that fails (`with (a).b: c`)",
 "match_name": "a statement that starts with the name match is taken for a match statement, which is not implemented, and rejected",
}
FIXED = [l.rstrip("\n") for l in open(__file__.replace("gen_known.py", "fixed.txt"))]
PAIRS = [l.split() for l in open(__file__.replace("gen_known.py", "known_pairs.txt"))]
out = ["# known: property=<id> dev=<deviation> <what fails>   (identified by the deviation of mc/src/refparse.rs / reflex.rs that reproduces exactly the implementation's result)",
       "# fixed: property=<id> <commit> <what failed>"]
for i, d in PAIRS: out.append("known: property=%s dev=%s %s" % (i, d, TEXT[d]))
out += FIXED
open(__file__.replace("tools/gen_known.py", "known_findings.txt"), "w").write("\n".join(out) + "\n")

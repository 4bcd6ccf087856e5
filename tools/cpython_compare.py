#!/usr/bin/env python3
"""Design-time comparison of the reference parser with CPython's own parser (not part of any check).
usage: mkdir D; for each id: MC_DUMP=D bash run.sh ID quick; then cpython_compare.py D/*"""
import ast, sys, re, warnings, collections
from multiprocessing import Pool
warnings.simplefilter("ignore")
MODE = {"file": "exec", "eval": "eval", "func_type": "func_type", "single": "single"}
PAREN = {"Test", "Lambda", "NotTest", "Expr", "XorExpr", "AndExpr", "ShiftLeftExpr", "ShiftRightExpr", "PlusArithExpr", "MinusArithExpr", "MulTerm", "DivTerm",
         "FloorDivTerm", "ModuloTerm", "MatriceTerm", "UnaryPlus", "UnaryMinus", "UnaryInvert", "PowerExpr", "AtomExpr", "OrTest", "AndTest"}
def parse(src, mode):
    try: return ast.parse(src, mode=MODE[mode], type_comments=True), None
    except (SyntaxError, ValueError, RecursionError, MemoryError) as e: return None, type(e).__name__ + " " + re.sub(r"'[^']*'", "'X'", re.sub(r"\d+", "N", str(getattr(e, "msg", e))))
def norm(t):
    class V(ast.NodeTransformer):
        def visit_BoolOp(self, n):
            self.generic_visit(n)
            # the first operand of the same operator, flattened (a or b or c is kept left-nested by the model)
            while isinstance(n.values[0], ast.BoolOp) and type(n.values[0].op) is type(n.op): n.values = n.values[0].values + n.values[1:]
            return n
    return ast.dump(V().visit(t))
def job(args):
    path, lo, hi = args
    res = collections.Counter(); ex = {}; n = trees = 0
    def note(k, s):
        res[k] += 1
        if k not in ex or len(s) < len(ex[k]): ex[k] = s
    with open(path) as f:
        f.seek(lo)
        if lo: f.readline()
        while f.tell() <= hi:
            l = f.readline()
            if not l: break
            mode, v, hx, sp = l.rstrip("\n").split("\t")
            src = bytes.fromhex(hx).decode()
            if "\0" in src or "<>" in src: continue
            if mode == "single" and v != "T": continue
            n += 1
            t, e = parse(src, mode)
            if mode == "single" and t is None: continue
            if v == "R" and t is not None: note(("model rejects, CPython accepts",), "%s %r" % (mode, src)); continue
            if v != "R" and t is None: note(("model accepts, CPython rejects", e), "%s %r" % (mode, src)); continue
            if v != "T" or t is None: continue
            ins = []
            for x in sp.split():
                d, name, a, b = x.split(":"); d, a, b = int(d), int(a), int(b)
                if name not in PAREN: continue
                ins.append((a, 0, -b, "(")); ins.append((b, -1, -a, ")"))
            if not ins: continue
            trees += 1
            o = []; at = 0
            for p, k, q, c in sorted(ins): o.append(src[at:p]); o.append(c); at = p
            o.append(src[at:])
            if len(ins) > 400: continue
            t2, e2 = parse("".join(o), mode)
            if t2 is None: note(("parenthesised tree rejected", e2), "%s %r -> %r" % (mode, src, "".join(o))); continue
            try: same = norm(t) == norm(t2)
            except RecursionError: continue
            if not same: note(("grouping differs",), "%s %r -> %r" % (mode, src, "".join(o)))
    return res, ex, n, trees
if __name__ == "__main__":
    import os
    jobs = []
    for p in sys.argv[1:]:
        z = os.path.getsize(p); step = 4 << 20
        jobs += [(p, i, min(i + step, z) - 1) for i in range(0, z, step)]
    tot = collections.Counter(); ex = {}; n = trees = 0
    with Pool(8, maxtasksperchild=20) as pool:
        for r, e, a, b in pool.imap_unordered(job, jobs):
            tot += r; n += a; trees += b
            for k, s in e.items():
                if k not in ex or len(s) < len(ex[k]): ex[k] = s
    print(n, "sources,", trees, "groupings compared")
    for k, c in tot.most_common(): print(c, k, ex[k])

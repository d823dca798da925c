"""
Development aid: apply small syntactic mutations to functions in memory and
list the ones that the checks of a property don't report.

    python3 tools/mutate.py C01[,C02] <function or class qualname> ...
"""

from __future__ import annotations

import ast
import copy
import importlib
import multiprocessing as mp
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from sa.core import ROOT, Ctx, load_findings  # noqa: E402
from sa.model import Program  # noqa: E402


def mutants(fnode):
    """Yield (description, mutated function node)."""

    def clone():
        memo: dict = {}
        new = copy.deepcopy(fnode, memo)
        return new, memo

    def bodies(node):
        for sub in ast.walk(node):
            for field in ("body", "orelse", "finalbody"):
                val = getattr(sub, field, None)
                if isinstance(val, list) and val and isinstance(val[0], ast.stmt):
                    yield sub, field, val

    # Delete and swap statements.
    for owner, field, val in list(bodies(fnode)):
        for i, stmt in enumerate(val):
            if isinstance(stmt, ast.Expr) and isinstance(stmt.value, ast.Constant):
                continue
            text = ast.unparse(stmt)
            if ".debug(" in text or ".info(" in text or isinstance(stmt, (ast.Pass, ast.Nonlocal, ast.Global)):
                if isinstance(stmt, ast.Expr) or isinstance(stmt, (ast.Pass, ast.Nonlocal, ast.Global)):
                    continue
            new, memo = clone()
            tgt = memo[id(val)] if id(val) in memo else getattr(memo[id(owner)], field)
            tgt[i] = ast.Pass()
            yield f"delete [{text[:110]}] L{stmt.lineno}", new
            if i + 1 < len(val) and not isinstance(stmt, (ast.Return, ast.Raise)):
                nxt = ast.unparse(val[i + 1])
                if ".debug(" in nxt or ".info(" in nxt:
                    continue
                new, memo = clone()
                tgt = getattr(memo[id(owner)], field)
                tgt[i], tgt[i + 1] = tgt[i + 1], tgt[i]
                yield f"swap [{text[:70]}] <-> [{nxt[:70]}] L{stmt.lineno}", new
    for sub in ast.walk(fnode):
        if isinstance(sub, (ast.If, ast.While, ast.IfExp)):
            new, memo = clone()
            tgt = memo[id(sub)]
            tgt.test = ast.UnaryOp(ast.Not(), tgt.test)
            yield f"negate [{ast.unparse(sub.test)[:90]}] L{sub.lineno}", new
            if isinstance(sub, ast.If):
                new, memo = clone()
                memo[id(sub)].test = ast.Constant(True)
                yield f"always [{ast.unparse(sub.test)[:90]}] L{sub.lineno}", new
                new, memo = clone()
                memo[id(sub)].test = ast.Constant(False)
                yield f"never [{ast.unparse(sub.test)[:90]}] L{sub.lineno}", new
        if isinstance(sub, ast.BoolOp):
            for i in range(len(sub.values)):
                new, memo = clone()
                tgt = memo[id(sub)]
                del tgt.values[i]
                if len(tgt.values) == 1:
                    tgt.values.append(tgt.values[0])
                yield f"drop operand [{ast.unparse(sub.values[i])[:70]}] of [{ast.unparse(sub)[:70]}] L{sub.lineno}", new
            new, memo = clone()
            memo[id(sub)].op = ast.Or() if isinstance(sub.op, ast.And) else ast.And()
            yield f"and/or [{ast.unparse(sub)[:90]}] L{sub.lineno}", new
        if isinstance(sub, ast.Compare) and len(sub.ops) == 1:
            flip = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
            new, memo = clone()
            memo[id(sub)].ops = [flip[type(sub.ops[0])]()]
            yield f"compare [{ast.unparse(sub)[:90]}] L{sub.lineno}", new
        if isinstance(sub, ast.Constant) and not isinstance(sub.value, (str, type(None), type(...))):
            new, memo = clone()
            tgt = memo[id(sub)]
            if isinstance(sub.value, bool):
                tgt.value = not sub.value
            elif isinstance(sub.value, (int, float)):
                tgt.value = sub.value + 1
            elif isinstance(sub.value, bytes):
                tgt.value = sub.value + b"x"
            yield f"const {sub.value!r} L{sub.lineno}", new
        if isinstance(sub, ast.Await):
            new, memo = clone()
            tgt = memo[id(sub)]
            for parent in ast.walk(new):
                for name, val in ast.iter_fields(parent):
                    if val is tgt:
                        setattr(parent, name, tgt.value)
                    elif isinstance(val, list):
                        for i, item in enumerate(val):
                            if item is tgt:
                                val[i] = tgt.value
            yield f"unawait [{ast.unparse(sub)[:90]}] L{sub.lineno}", new
        if isinstance(sub, ast.BinOp) and not isinstance(sub.left, ast.Constant):
            swap = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.FloorDiv: ast.Mult, ast.Mod: ast.Mult}
            if type(sub.op) in swap:
                new, memo = clone()
                memo[id(sub)].op = swap[type(sub.op)]()
                yield f"binop [{ast.unparse(sub)[:90]}] L{sub.lineno}", new
        if isinstance(sub, ast.Call):
            if len(sub.args) >= 2 and not any(isinstance(a, ast.Starred) for a in sub.args) and "logger" not in ast.unparse(sub.func):
                new, memo = clone()
                tgt = memo[id(sub)]
                tgt.args[0], tgt.args[1] = tgt.args[1], tgt.args[0]
                yield f"swap args [{ast.unparse(sub)[:90]}] L{sub.lineno}", new
            for i, kw in enumerate(sub.keywords):
                new, memo = clone()
                del memo[id(sub)].keywords[i]
                yield f"drop kw {kw.arg} [{ast.unparse(sub)[:90]}] L{sub.lineno}", new
        if isinstance(sub, ast.Try) and sub.finalbody:
            new, memo = clone()
            tgt = memo[id(sub)]
            for _, _, val in list(bodies(new)):
                if tgt in val:
                    i = val.index(tgt)
                    final = tgt.finalbody
                    if tgt.handlers:
                        tgt.finalbody = []
                        val[i + 1 : i + 1] = final
                    else:
                        val[i : i + 1] = tgt.body + final
            yield f"unfinally L{sub.lineno}", new
        if isinstance(sub, ast.Try) and sub.handlers:
            for i, h in enumerate(sub.handlers):
                new, memo = clone()
                memo[id(h)].body = [ast.Raise()]
                yield f"reraise handler {ast.unparse(h.type) if h.type else ''} L{h.lineno}", new
        if isinstance(sub, (ast.With, ast.AsyncWith)):
            new, memo = clone()
            tgt = memo[id(sub)]
            if not sub.items[0].optional_vars:
                for _, _, val in list(bodies(new)):
                    if tgt in val:
                        i = val.index(tgt)
                        val[i : i + 1] = tgt.body
                yield f"unwith [{ast.unparse(sub.items[0])[:80]}] L{sub.lineno}", new


BASE = None


def work(job):
    rel, fname, line, desc, src, props = job
    known, _ = load_findings()
    hits = []
    try:
        program = Program(ROOT, overrides={rel: src})
        for prop in props:
            mod = importlib.import_module(f"sa.props.{prop.lower()}")
            ctx = Ctx(program, prop, "quick")
            mod.run(ctx)
            bad = {o.key for o in ctx.obs if not o.ok and (prop, o.key) not in known}
            if bad:
                hits.append((prop, sorted(bad)[:2]))
    except Exception as exc:  # pylint: disable=broad-except
        return (fname, desc, f"ERROR {type(exc).__name__}: {exc}")
    return (fname, desc, hits)


def main(argv):
    props = argv[0].split(",")
    program = Program(ROOT)
    funcs = []
    for name in argv[1:]:
        if name in program.classes:
            cls = program.classes[name]
            funcs.extend([*cls.methods.values(), *cls.setters.values()])
        elif name in program.functions:
            funcs.append(program.functions[name])
        elif name in program.modules:
            mod = program.modules[name]
            funcs.extend(mod.functions.values())
            for cls in mod.classes.values():
                funcs.extend([*cls.methods.values(), *cls.setters.values()])
        else:
            print("unknown", name)
    jobs = []
    for func in funcs:
        tree = func.module.tree
        for desc, new in mutants(func.node):
            ast.fix_missing_locations(new)
            # Splice the mutated function into the tree.
            spliced = False
            for parent in ast.walk(tree):
                for field in ("body", "orelse", "finalbody"):
                    val = getattr(parent, field, None)
                    if isinstance(val, list) and func.node in val:
                        i = val.index(func.node)
                        val[i] = new
                        src = ast.unparse(tree)
                        val[i] = func.node
                        spliced = True
                        break
                if spliced:
                    break
            jobs.append((func.module.rel, func.qual, func.node.lineno, desc, src, props))
    caught = 0
    with mp.Pool(8) as pool:
        for fname, desc, hits in pool.imap(work, jobs, chunksize=2):
            if isinstance(hits, str):
                print(f"!! {fname}: {desc}: {hits}")
            elif hits:
                caught += 1
                if os.environ.get("SHOW"):
                    print(f"ok {fname}: {desc}: {hits}")
            else:
                print(f"-- {fname.split('.')[-2]}.{fname.split('.')[-1]}: {desc}")
    print(f"{caught}/{len(jobs)} caught")


if __name__ == "__main__":
    main(sys.argv[1:])

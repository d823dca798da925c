"""
Development aid: apply behaviour-preserving rewrites to every function of the
package (in a scratch copy) and list the checks that don't stay quiet.

    python3 tools/refactor.py [--test] [name ...]
"""

from __future__ import annotations

import ast
import builtins
import copy
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

BASE = "/tmp/rf"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIMPLE = (ast.Name, ast.Constant)
TERM = (ast.Return, ast.Raise, ast.Continue, ast.Break)


def blocks(tree):
    for node in ast.walk(tree):
        for field in ("body", "orelse", "finalbody"):
            val = getattr(node, field, None)
            if isinstance(val, list) and val and isinstance(val[0], ast.stmt):
                yield node, field, val


def funcs(tree):
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield node


def in_funcs(tree):
    seen = set()
    for fn in funcs(tree):
        for node, field, val in blocks(fn):
            if id(val) not in seen and not isinstance(node, ast.ClassDef):
                seen.add(id(val))
                yield fn, node, field, val


def neg(test):
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return test.operand
    return ast.UnaryOp(ast.Not(), test)


def name(text, store=False):
    return ast.Name(text, ast.Store() if store else ast.Load())


def t_unparse(tree):
    pass


def t_invert(tree):
    for node in ast.walk(tree):
        if isinstance(node, ast.If) and node.orelse:
            if len(node.orelse) == 1 and isinstance(node.orelse[0], ast.If):
                continue
            node.test = neg(node.test)
            node.body, node.orelse = node.orelse, node.body


def t_guard(tree):
    """if c: return; rest -> if c: return; else: rest."""
    for _ in range(3):
        for fn, node, field, val in list(in_funcs(tree)):
            for i, stmt in enumerate(val):
                if isinstance(stmt, ast.If) and not stmt.orelse and isinstance(stmt.body[-1], TERM) and i + 1 < len(val):
                    stmt.orelse = val[i + 1 :]
                    del val[i + 1 :]
                    break


def t_unguard(tree):
    """Trailing 'if c: body' of a function or loop becomes 'if not c: return/continue'; body."""
    for fn, node, field, val in list(in_funcs(tree)):
        stmt = val[-1]
        if not isinstance(stmt, ast.If) or stmt.orelse or field != "body":
            continue
        if node is fn and not any(isinstance(x, (ast.Return)) and x.value for x in ast.walk(fn)):
            leave = ast.Return(None)
        elif isinstance(node, (ast.For, ast.While, ast.AsyncFor)):
            leave = ast.Continue()
        else:
            continue
        val[-1:] = [ast.If(neg(stmt.test), [leave], [])] + stmt.body


def t_retvar(tree):
    for fn, node, field, val in list(in_funcs(tree)):
        for i, stmt in enumerate(list(val)):
            if isinstance(stmt, ast.Return) and stmt.value is not None and not isinstance(stmt.value, SIMPLE):
                idx = val.index(stmt)
                val[idx : idx + 1] = [ast.Assign([name("_outcome", True)], stmt.value), ast.Return(name("_outcome"))]


def t_inline(tree):
    """x = e; return x -> return e; and x = e; if x: -> if e: when used once."""
    for fn in funcs(tree):
        count: dict = {}
        for sub in ast.walk(fn):
            if isinstance(sub, ast.Name):
                count[sub.id] = count.get(sub.id, 0) + 1
        for node, field, val in list(blocks(fn)):
            for i in range(len(val) - 2, -1, -1):
                one, two = val[i], val[i + 1]
                if isinstance(one, ast.Assign) and len(one.targets) == 1 and isinstance(one.targets[0], ast.Name) and count.get(one.targets[0].id) == 2:
                    x = one.targets[0].id
                    if isinstance(two, ast.Return) and isinstance(two.value, ast.Name) and two.value.id == x:
                        two.value = one.value
                        del val[i]
                    elif isinstance(two, ast.If) and isinstance(two.test, ast.Name) and two.test.id == x:
                        two.test = one.value
                        del val[i]


def t_argvar(tree):
    n = 0
    for fn, node, field, val in list(in_funcs(tree)):
        for stmt in list(val):
            call = stmt.value if isinstance(stmt, (ast.Expr, ast.Assign, ast.Return)) else None
            if isinstance(call, ast.Await):
                call = call.value
            if not isinstance(call, ast.Call) or any(isinstance(a, ast.Starred) for a in call.args):
                continue
            if not isinstance(call.func, ast.Attribute) and not isinstance(call.func, ast.Name):
                continue
            if isinstance(call.func, ast.Name) and call.func.id in ("super",):
                continue
            pre = []
            for lst in (call.args, [k for k in call.keywords if k.arg]):
                for j, arg in enumerate(lst):
                    expr = arg.value if isinstance(arg, ast.keyword) else arg
                    if isinstance(expr, SIMPLE) or isinstance(expr, (ast.Lambda, ast.JoinedStr, ast.Starred, ast.GeneratorExp)):
                        continue
                    # Coroutines must not be created early.
                    n += 1
                    pre.append(ast.Assign([name(f"_arg{n}", True)], expr))
                    if isinstance(arg, ast.keyword):
                        arg.value = name(f"_arg{n}")
                    else:
                        lst[j] = name(f"_arg{n}")
            if pre:
                idx = val.index(stmt)
                val[idx:idx] = pre


def t_andsplit(tree):
    for node in ast.walk(tree):
        if isinstance(node, ast.If) and not node.orelse and isinstance(node.test, ast.BoolOp) and isinstance(node.test.op, ast.And):
            vals = node.test.values
            rest = vals[1] if len(vals) == 2 else ast.BoolOp(ast.And(), vals[1:])
            node.test = vals[0]
            node.body = [ast.If(rest, node.body, [])]


def t_andjoin(tree):
    for node in ast.walk(tree):
        if isinstance(node, ast.If) and not node.orelse and len(node.body) == 1:
            sub = node.body[0]
            if isinstance(sub, ast.If) and not sub.orelse and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(sub.test)):
                node.test = ast.BoolOp(ast.And(), [node.test, sub.test])
                node.body = sub.body


def t_ifexp(tree):
    for fn, node, field, val in list(in_funcs(tree)):
        for stmt in list(val):
            idx = val.index(stmt)
            if isinstance(stmt, ast.Assign) and isinstance(stmt.value, ast.IfExp):
                e = stmt.value
                val[idx] = ast.If(e.test, [ast.Assign(stmt.targets, e.body)], [ast.Assign(copy.deepcopy(stmt.targets), e.orelse)])
            elif isinstance(stmt, ast.Return) and isinstance(stmt.value, ast.IfExp):
                e = stmt.value
                val[idx : idx + 1] = [ast.If(e.test, [ast.Return(e.body)], []), ast.Return(e.orelse)]


def t_boolret(tree):
    """return a or b -> if a: return a; return b is only for names; x = a or b."""
    for fn, node, field, val in list(in_funcs(tree)):
        for stmt in list(val):
            idx = val.index(stmt)
            if isinstance(stmt, ast.Assign) and isinstance(stmt.value, ast.BoolOp) and len(stmt.value.values) == 2 and isinstance(stmt.targets[0], ast.Name):
                a, b = stmt.value.values
                tgt = stmt.targets[0].id
                test = name(tgt) if isinstance(stmt.value.op, ast.And) else neg(name(tgt))
                if any(isinstance(x, ast.Name) and x.id == tgt for x in ast.walk(b)):
                    continue
                val[idx : idx + 1] = [ast.Assign([name(tgt, True)], a), ast.If(test, [ast.Assign([name(tgt, True)], b)], [])]


def t_comp(tree):
    n = 0
    for fn, node, field, val in list(in_funcs(tree)):
        for stmt in list(val):
            if not isinstance(stmt, (ast.Assign, ast.Return)) or not isinstance(stmt.value, (ast.ListComp, ast.SetComp, ast.DictComp)):
                continue
            comp = stmt.value
            if any(g.is_async for g in comp.generators):
                continue
            n += 1
            out = f"_items{n}"
            if isinstance(comp, ast.DictComp):
                init = ast.Dict([], [])
                inner = ast.Assign([ast.Subscript(name(out), comp.key, ast.Store())], comp.value)
            else:
                init = ast.List([], ast.Load()) if isinstance(comp, ast.ListComp) else ast.Call(name("set"), [], [])
                meth = "append" if isinstance(comp, ast.ListComp) else "add"
                inner = ast.Expr(ast.Call(ast.Attribute(name(out), meth, ast.Load()), [comp.elt], []))
            body = inner
            for gen in reversed(comp.generators):
                for cond in reversed(gen.ifs):
                    body = ast.If(cond, [body], [])
                body = ast.For(gen.target, gen.iter, [body], [])
            stmt.value = name(out)
            idx = val.index(stmt)
            val[idx:idx] = [ast.Assign([name(out, True)], init), body]


def t_compify(tree):
    """Loops that only collect become comprehensions."""
    sys.path.insert(0, HERE)
    from sa import normal

    for fn in funcs(tree):
        for stmts in list(normal.own_blocks(fn)):
            i = 0
            while i + 1 < len(stmts):
                new = normal.comprehension(stmts[i], stmts[i + 1])
                if new is not None:
                    stmts[i : i + 2] = [new]
                i += 1


def t_augassign(tree):
    for fn, node, field, val in list(in_funcs(tree)):
        for stmt in list(val):
            if isinstance(stmt, ast.AugAssign) and isinstance(stmt.target, (ast.Name, ast.Attribute)):
                load = copy.deepcopy(stmt.target)
                load.ctx = ast.Load()
                val[val.index(stmt)] = ast.Assign([stmt.target], ast.BinOp(load, stmt.op, stmt.value))


def t_demorgan(tree):
    flip = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In}

    class V(ast.NodeTransformer):
        def visit_Compare(self, node):
            self.generic_visit(node)
            if len(node.ops) == 1 and type(node.ops[0]) in (ast.IsNot, ast.NotIn, ast.NotEq):
                return ast.UnaryOp(ast.Not(), ast.Compare(node.left, [flip[type(node.ops[0])]()], node.comparators))
            return node

        def visit_If(self, node):
            self.generic_visit(node)
            if isinstance(node.test, ast.BoolOp):
                op = ast.Or() if isinstance(node.test.op, ast.And) else ast.And()
                node.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [neg(x) for x in node.test.values]))
            return node

    V().visit(tree)


def t_flip(tree):
    flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    for node in ast.walk(tree):
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and type(node.ops[0]) in flip:
            node.left, node.comparators[0] = node.comparators[0], node.left
            node.ops[0] = flip[type(node.ops[0])]()


def locals_of(fn):
    args = {a.arg for a in [*fn.args.args, *fn.args.kwonlyargs, *fn.args.posonlyargs] + [x for x in (fn.args.vararg, fn.args.kwarg) if x]}
    out = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    for x in ast.walk(fn):
        if isinstance(x, (ast.Global, ast.Nonlocal)):
            out -= set(x.names)
    return out - args, args


def t_rename(tree):
    for top in tree.body:
        tops = [top] if isinstance(top, (ast.FunctionDef, ast.AsyncFunctionDef)) else [x for x in getattr(top, "body", []) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef))]
        for fn in tops:
            mine, args = locals_of(fn)
            inner_args = set()
            for sub in funcs(fn):
                inner_args |= locals_of(sub)[1]
            for sub in ast.walk(fn):
                if isinstance(sub, ast.Lambda):
                    inner_args |= {a.arg for a in sub.args.args}
            nl = set()
            for x in ast.walk(fn):
                if isinstance(x, (ast.Global, ast.Nonlocal)):
                    nl |= set(x.names)
            mine -= inner_args | nl
            for sub in ast.walk(fn):
                if isinstance(sub, ast.Name) and sub.id in mine:
                    sub.id = sub.id + "_renamed"


def t_noop(tree):
    n = 0
    for fn, node, field, val in list(in_funcs(tree)):
        at = 1 if isinstance(val[0], ast.Expr) and isinstance(val[0].value, ast.Constant) and node is fn else 0
        n += 1
        val[at:at] = [ast.Assign([name(f"_unused{n}", True)], ast.Constant(0)), ast.Pass()]


def t_withsplit(tree):
    for node in ast.walk(tree):
        if isinstance(node, (ast.With, ast.AsyncWith)) and len(node.items) > 1:
            first, rest = node.items[0], node.items[1:]
            node.items = [first]
            node.body = [type(node)(rest, node.body)]


def t_while(tree):
    for node in ast.walk(tree):
        if isinstance(node, ast.While) and not node.orelse and not isinstance(node.test, ast.Constant):
            node.body.insert(0, ast.If(neg(node.test), [ast.Break()], []))
            node.test = ast.Constant(True)


def t_walrus(tree):
    """x = f(); if x: -> if (x := f()):"""
    for fn, node, field, val in list(in_funcs(tree)):
        for i in range(len(val) - 2, -1, -1):
            one, two = val[i], val[i + 1]
            if isinstance(one, ast.Assign) and len(one.targets) == 1 and isinstance(one.targets[0], ast.Name) and isinstance(two, ast.If):
                x = one.targets[0].id
                if isinstance(two.test, ast.Name) and two.test.id == x:
                    two.test = ast.NamedExpr(one.targets[0], one.value)
                    del val[i]
                elif isinstance(two.test, ast.Compare) and isinstance(two.test.left, ast.Name) and two.test.left.id == x:
                    two.test.left = ast.NamedExpr(one.targets[0], one.value)
                    del val[i]


def t_tupleassign(tree):
    """Consecutive stores of constants/names to attributes are swapped."""
    for fn, node, field, val in list(in_funcs(tree)):
        i = 0
        while i + 1 < len(val):
            one, two = val[i], val[i + 1]
            ok = all(
                isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Attribute) and isinstance(x.value, (ast.Constant, ast.Name, ast.Dict, ast.List))
                and isinstance(x.targets[0].value, ast.Name) and x.targets[0].value.id == "self" and not x.targets[0].attr.endswith("value")
                for x in (one, two)
            )
            if ok and one.targets[0].attr != two.targets[0].attr and not (isinstance(one.value, (ast.Dict, ast.List)) and (getattr(one.value, 'values', None) or getattr(one.value, 'elts', None))):
                val[i], val[i + 1] = two, one
                i += 2
            else:
                i += 1


def t_selfalias(tree):
    """this = self at the start of methods, used in place of self."""
    for fn in list(funcs(tree)):
        args = [a.arg for a in fn.args.args]
        if not args or args[0] != "self" or fn.name == "__init__":
            continue
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" for x in ast.walk(fn)):
            continue
        for sub in ast.walk(fn):
            if isinstance(sub, ast.Name) and sub.id == "self":
                sub.id = "this"
        at = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
        fn.body.insert(at, ast.Assign([name("this", True)], name("self")))


def escapes(stmts):
    loops = 0

    def walk(node, depth):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            return False
        if isinstance(node, (ast.Return, ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global, ast.NamedExpr)):
            return True
        if isinstance(node, (ast.Break, ast.Continue)) and not depth:
            return True
        sub = depth + isinstance(node, (ast.For, ast.While, ast.AsyncFor))
        return any(walk(x, sub) for x in ast.iter_child_nodes(node))

    return any(walk(x, loops) for x in stmts)


def is_async(stmts):
    def walk(node):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            return False
        if isinstance(node, (ast.Await, ast.AsyncFor, ast.AsyncWith)):
            return True
        return any(walk(x) for x in ast.iter_child_nodes(node))

    return any(walk(x) for x in stmts)


def names_of(stmts, ctx):
    return {x.id for s in stmts for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}


def make_extract(pick, method=True):
    """Extract a part of each function into a helper."""

    def run(tree):
        n = 0
        globs = {x.id for s in tree.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and s in tree.body and isinstance(s, (ast.Assign, ast.AnnAssign))}
        classes = [(tree, None)] + [(c, c.name) for c in tree.body if isinstance(c, ast.ClassDef)]
        for owner, cname in classes:
            new = []
            for fn in [x for x in owner.body if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef))]:
                if any(isinstance(d, ast.Name) and d.id in ("staticmethod", "overload") for d in fn.decorator_list):
                    continue
                if any(isinstance(x, (ast.Nonlocal,)) for x in ast.walk(fn)) or any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(fn)):
                    continue
                mine, args = locals_of(fn)
                # Inner functions' own names are excluded.
                inner = {x.name for x in ast.walk(fn) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x is not fn}
                handlers = {x.name for x in ast.walk(fn) if isinstance(x, ast.ExceptHandler) and x.name}
                params = sorted(mine | args | inner | handlers)
                imports = {a.asname or a.name.split(".")[0] for x in ast.walk(fn) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
                params = sorted(set(params) | imports)
                for blk, at, count in pick(fn):
                    stmts = blk[at : at + count]
                    if escapes(stmts) or any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Del) for s in stmts for x in ast.walk(s)):
                        continue
                    if any(isinstance(x, ast.Raise) and x.exc is None for s in stmts for x in ast.walk(s)):
                        continue
                    stores = names_of(stmts, ast.Store)
                    others = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and not any(x is y for s in stmts for y in ast.walk(s))]
                    if stores & {x.id for x in others}:
                        continue
                    # Names used by nested functions defined outside of it are fine.
                    if any(isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) for s in stmts for x in ast.walk(s)):
                        continue
                    bound = {x.name for s in stmts for x in ast.walk(s) if isinstance(x, ast.ExceptHandler) and x.name}
                    uses = [x for x in params if x in names_of(stmts, ast.Load) and (x not in stores or x in args) and x not in bound]
                    n += 1
                    hname = f"_helper_{fn.name.strip('_')}_{n}"
                    isa = is_async(stmts)
                    as_method = method and cname and "self" in args
                    plist = [u for u in uses if u != "self"]
                    hargs = ([ast.arg("self")] if as_method else []) + [ast.arg(u) for u in (plist if as_method else uses)]
                    helper = (ast.AsyncFunctionDef if isa else ast.FunctionDef)(
                        name=hname, args=ast.arguments([], hargs, None, [], [], None, []), body=stmts, decorator_list=[], returns=None, type_params=[]
                    )
                    fexpr = ast.Attribute(name("self"), hname, ast.Load()) if as_method else name(hname)
                    call = ast.Call(fexpr, [name(u) for u in (plist if as_method else uses)], [])
                    blk[at : at + count] = [ast.Expr(ast.Await(call) if isa else call)]
                    (new if as_method else tree_new).append(helper)
                    break
            if cname:
                owner.body.extend(new)
        tree.body.extend(tree_new)
        tree_new.clear()

    tree_new: list = []
    return run


def pick_compound(fn):
    for node, field, blk in blocks(fn):
        for i, s in enumerate(blk):
            if isinstance(s, (ast.If, ast.For, ast.With, ast.Try, ast.While)):
                yield blk, i, 1


def pick_body(fn):
    """The body of a compound statement."""
    for node, field, blk in blocks(fn):
        if node is not fn and not isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield blk, 0, len(blk)


def pick_two(fn):
    for node, field, blk in blocks(fn):
        for i in range(len(blk) - 1):
            if not isinstance(blk[i], (ast.FunctionDef, ast.Import, ast.ImportFrom)) and not (isinstance(blk[i], ast.Expr) and isinstance(blk[i].value, ast.Constant)):
                yield blk, i, 2


def pick_single(fn):
    for node, field, blk in blocks(fn):
        for i, s in enumerate(blk):
            if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                yield blk, i, 1


def pick_last(fn):
    for node, field, blk in reversed(list(blocks(fn))):
        for i in reversed(range(len(blk))):
            s = blk[i]
            if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.If, ast.For, ast.With)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                yield blk, i, 1


def t_extract_cond(tree):
    """Conditions of ifs become helper methods."""
    n = 0
    for cls in [x for x in tree.body if isinstance(x, ast.ClassDef)]:
        for fn in [x for x in cls.body if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef))]:
            mine, args = locals_of(fn)
            if "self" not in args:
                continue
            for x in ast.walk(fn):
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    a, b = locals_of(x)
                    mine |= a | b
                if isinstance(x, ast.ExceptHandler) and x.name:
                    mine.add(x.name)
                if isinstance(x, (ast.Import, ast.ImportFrom)):
                    mine |= {a.asname or a.name for a in x.names}
            for node in ast.walk(fn):
                if isinstance(node, ast.If) and isinstance(node.test, (ast.BoolOp, ast.Compare)):
                    if any(isinstance(x, (ast.Await, ast.NamedExpr, ast.Lambda, ast.GeneratorExp, ast.ListComp)) for x in ast.walk(node.test)):
                        continue
                    if any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(node.test)):
                        continue
                    uses = sorted({x.id for x in ast.walk(node.test) if isinstance(x, ast.Name)} & ((mine | args) - {"self"}))
                    n += 1
                    hname = f"_check_{n}"
                    helper = ast.FunctionDef(name=hname, args=ast.arguments([], [ast.arg("self")] + [ast.arg(u) for u in uses], None, [], [], None, []), body=[ast.Return(node.test)], decorator_list=[], returns=None, type_params=[])
                    node.test = ast.Call(ast.Attribute(name("self"), hname, ast.Load()), [name(u) for u in uses], [])
                    cls.body.append(helper)


def t_delegate(tree):
    """def f(self, a): return self._f_impl(a)"""
    for cls in [x for x in tree.body if isinstance(x, ast.ClassDef)]:
        for fn in [x for x in cls.body if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef))]:
            if fn.decorator_list or fn.args.vararg or fn.args.kwarg or fn.args.kwonlyargs or fn.name.startswith("__"):
                continue
            args = [a.arg for a in fn.args.args]
            if not args or args[0] != "self":
                continue
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn)) or any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(fn)):
                continue
            if cls.name.endswith("Protocol") or any(isinstance(b, ast.Name) and "Dict" in b.id for b in cls.bases):
                pass
            impl = copy.deepcopy(fn)
            impl.name = ("_" + fn.name).replace("__", "_u_") + "_impl_" + cls.name.lower()
            call = ast.Call(ast.Attribute(name("self"), impl.name, ast.Load()), [name(a) for a in args[1:]], [])
            doc = fn.body[:1] if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else []
            fn.body = doc + [ast.Return(ast.Await(call) if isinstance(fn, ast.AsyncFunctionDef) else call)]
            cls.body.append(impl)


def t_items(tree):
    """for k, v in d.items() -> for k in list(d): v = d[k] (only simple d)."""
    for node in ast.walk(tree):
        if isinstance(node, ast.For) and isinstance(node.iter, ast.Call) and isinstance(node.iter.func, ast.Attribute) and node.iter.func.attr == "items" and not node.iter.args:
            if isinstance(node.target, ast.Tuple) and isinstance(node.target.elts[0], ast.Name):
                d = node.iter.func.value
                key = node.target.elts[0]
                node.body.insert(0, ast.Assign([node.target.elts[1]], ast.Subscript(copy.deepcopy(d), name(key.id), ast.Load())))
                node.target = key
                node.iter = d


def t_forvar(tree):
    """for x in e -> items = e; for x in items."""
    n = 0
    for fn, node, field, val in list(in_funcs(tree)):
        for stmt in list(val):
            if isinstance(stmt, ast.For) and not isinstance(stmt.iter, ast.Name):
                n += 1
                val.insert(val.index(stmt), ast.Assign([name(f"_seq{n}", True)], stmt.iter))
                stmt.iter = name(f"_seq{n}")


def t_fstring(tree):
    """f-strings become str.format calls."""

    class V(ast.NodeTransformer):
        def visit_FormattedValue(self, node):
            node.value = self.visit(node.value)
            return node

        def visit_JoinedStr(self, node):
            self.generic_visit(node)
            text, args = "", []
            for part in node.values:
                if isinstance(part, ast.Constant):
                    text += part.value.replace("{", "{{").replace("}", "}}")
                elif part.conversion == -1 and part.format_spec is None:
                    text += "{}"
                    args.append(part.value)
                else:
                    return node
            return ast.Call(ast.Attribute(ast.Constant(text), "format", ast.Load()), args, [])

    V().visit(tree)


def t_trymove(tree):
    """try: x = f(); return x -> return moved to else where there's only a try/except around it."""
    for node in ast.walk(tree):
        if isinstance(node, ast.Try) and node.handlers and not node.orelse and len(node.body) > 1 and isinstance(node.body[-1], ast.Return):
            if node.body[-1].value is None or isinstance(node.body[-1].value, SIMPLE):
                node.orelse = [node.body.pop()]


def t_anno(tree):
    """Annotated assignments lose their annotations in functions."""
    for fn, node, field, val in list(in_funcs(tree)):
        for stmt in list(val):
            if isinstance(stmt, ast.AnnAssign) and stmt.value is not None:
                val[val.index(stmt)] = ast.Assign([stmt.target], stmt.value)


def t_suppress(tree):
    """with suppress(X): body -> try: body except X: pass."""
    for fn, node, field, val in list(in_funcs(tree)):
        for stmt in list(val):
            if isinstance(stmt, ast.With) and len(stmt.items) == 1:
                call = stmt.items[0].context_expr
                if isinstance(call, ast.Call) and isinstance(call.func, (ast.Name, ast.Attribute)) and ast.unparse(call.func).endswith("suppress"):
                    typ = call.args[0] if len(call.args) == 1 else ast.Tuple(call.args, ast.Load())
                    val[val.index(stmt)] = ast.Try(stmt.body, [ast.ExceptHandler(typ, None, [ast.Pass()])], [], [])


def t_doubleneg(tree):
    """if x: -> if not not x"""
    for node in ast.walk(tree):
        if isinstance(node, ast.If) and not isinstance(node.test, ast.NamedExpr):
            node.test = ast.Compare(ast.Call(name("bool"), [node.test], []), [ast.Is()], [ast.Constant(True)])


def t_attrvar(tree):
    """Attribute chains that calls are made on get a variable: a.b.c(x) -> v = a.b; v.c(x)."""
    n = 0
    for fn, node, field, val in list(in_funcs(tree)):
        for stmt in list(val):
            call = stmt.value if isinstance(stmt, (ast.Expr, ast.Assign, ast.Return)) else None
            if isinstance(call, ast.Await):
                call = call.value
            if isinstance(call, ast.Call) and isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Attribute):
                if any(isinstance(x, ast.Await) for x in ast.walk(call)) and not isinstance(stmt.value, ast.Await):
                    continue
                n += 1
                val.insert(val.index(stmt), ast.Assign([name(f"_target{n}", True)], call.func.value))
                call.func.value = name(f"_target{n}")


TRANSFORMS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("t_")}
TRANSFORMS["x_compound"] = make_extract(pick_compound)
TRANSFORMS["x_body"] = make_extract(pick_body)
TRANSFORMS["x_two"] = make_extract(pick_two)
TRANSFORMS["x_single"] = make_extract(pick_single)
TRANSFORMS["x_last"] = make_extract(pick_last)
TRANSFORMS["x_func"] = make_extract(pick_body, method=False)
TRANSFORMS["x_func1"] = make_extract(pick_single, method=False)


def t_private(root):
    """Private methods and attributes get other names (whole package)."""
    texts = {}
    for folder, _, files in os.walk(root):
        for f in files:
            if f.endswith(".py"):
                p = os.path.join(folder, f)
                texts[p] = open(p).read()
    defined = set()
    for text in texts.values():
        for node in ast.walk(ast.parse(text)):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) and re.match(r"_[a-z]", node.name):
                defined.add(node.name)
            if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) and node.value.id == "self" and isinstance(node.ctx, ast.Store) and re.match(r"_[a-z]", node.attr):
                defined.add(node.attr)
    for p, text in texts.items():
        open(p, "w").write(re.sub(r"(?<![\w])(_[a-z]\w*)\b", lambda m: m.group(1) + "_v2" if m.group(1) in defined else m.group(1), text))


def build(key, only=None):
    root = f"{BASE}/{key}"
    shutil.rmtree(root, ignore_errors=True)
    shutil.copytree("/repo/runtimepy", f"{root}/runtimepy", ignore=shutil.ignore_patterns("__pycache__"))
    if key == "private":
        t_private(f"{root}/runtimepy")
        return root
    for folder, _, files in os.walk(f"{root}/runtimepy"):
        for f in files:
            p = os.path.join(folder, f)
            if f.endswith(".py") and (only is None or only in p):
                tree = ast.parse(open(p).read())
                TRANSFORMS[key](tree)
                ast.fix_missing_locations(tree)
                text = ast.unparse(tree)
                ast.parse(text)
                open(p, "w").write(text + "\n")
    return root


def check(prop, root):
    env = dict(os.environ, SA_ROOT=root)
    got = subprocess.run([sys.executable, "-m", "sa", prop], cwd=HERE, env=env, capture_output=True, text=True, timeout=900)
    return prop, got.returncode, got.stdout, got.stderr


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    only = next((a.split("=")[1] for a in sys.argv[1:] if a.startswith("--only=")), None)
    props = next((a.split("=")[1].split(",") for a in sys.argv[1:] if a.startswith("--props=")), None)
    if props is None:
        props = sorted(f[:-3].upper() for f in os.listdir(f"{HERE}/sa/props") if re.match(r"c\d\d\.py", f))
    for key in args or [*TRANSFORMS, "private"]:
        if key == "private" or key in TRANSFORMS:
            root = build(key, only)
        if "--build" in sys.argv:
            continue
        bad = []
        with ThreadPoolExecutor(6) as pool:
            for prop, rc, out, err in pool.map(lambda p: check(p, root), props):
                if rc:
                    lines = [x for x in out.splitlines() if x.startswith(("VIOLATION", "  "))] or err.splitlines()[-3:]
                    bad.append((prop, rc, lines))
        print(f"== {key}: {len(bad)} not quiet", flush=True)
        for prop, rc, lines in bad:
            print(f"  {prop} rc {rc}")
            for line in lines[:6]:
                print("    " + line[:260], flush=True)
        if "--keep" not in sys.argv:
            shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    main()

"""
Source normalization: undo refactorings that don't change behaviour.

Helpers that were added since the baseline (names in known.json) are inlined
where they're called, and private functions and attributes that were renamed
get their names back. Both preserve what the code does, so rules may be
written in terms of the baseline's structure and judge any other structure.
"""

from __future__ import annotations

import ast
import copy
import json
import os

KNOWN = os.path.join(os.path.dirname(os.path.abspath(__file__)), "known.json")
FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)
LOOPS = (ast.For, ast.AsyncFor, ast.While)


class CannotInline(Exception):
    """Raised when a call can't be replaced by statements."""


class Def:
    """A function definition and where it's defined."""

    def __init__(self, mod: str, node, body: list, cls, outer, qual: str):
        self.mod, self.node, self.body, self.cls, self.outer, self.qual = mod, node, body, cls, outer, qual


def collect(mod: str, tree) -> list[Def]:
    """All functions of a module."""
    out: list[Def] = []

    def visit(stmts, cls, outer, prefix):
        for stmt in stmts:
            if isinstance(stmt, FUNC):
                qual = f"{prefix}.{stmt.name}"
                out.append(Def(mod, stmt, stmts, cls if outer is None else None, outer, qual))
                visit(stmt.body, cls, stmt, qual)
            elif isinstance(stmt, ast.ClassDef):
                visit(stmt.body, stmt, None, f"{prefix}.{stmt.name}")
            else:
                for field in ("body", "orelse", "finalbody"):
                    sub = getattr(stmt, field, None)
                    if isinstance(sub, list):
                        visit(sub, cls, outer, prefix)
                for handler in getattr(stmt, "handlers", ()):
                    visit(handler.body, cls, outer, prefix)

    visit(tree.body, None, None, mod)
    return out


def words(node) -> list[str]:
    """What identifies the contents of a function."""
    out = []
    for sub in ast.walk(node):
        if isinstance(sub, ast.Attribute):
            out.append(sub.attr)
        elif isinstance(sub, ast.Constant) and not (isinstance(sub.value, str) and len(sub.value) > 60):
            out.append(repr(sub.value))
        elif isinstance(sub, ast.Name):
            out.append(sub.id)
    return sorted(out)


def attributes(cls: ast.ClassDef) -> dict[str, str]:
    """Instance attributes of a class and what they're initialized with."""
    out: dict[str, str] = {}
    for sub in ast.walk(cls):
        targets, value = [], None
        if isinstance(sub, ast.Assign):
            targets, value = sub.targets, sub.value
        elif isinstance(sub, ast.AnnAssign):
            targets, value = [sub.target], sub.value
        for tgt in targets:
            if isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and tgt.value.id == "self":
                out.setdefault(tgt.attr, ast.unparse(value) if value is not None else "")
    return out


COMPS = (ast.ListComp, ast.SetComp, ast.DictComp)


def iterations(func) -> tuple[list, list]:
    """Loops and comprehensions that are values of statements (not of nested functions)."""
    loops, comps = [], []

    def walk(node):
        if isinstance(node, ast.For):
            loops.append(node)
        if isinstance(node, (ast.Assign, ast.AnnAssign, ast.Return)) and isinstance(node.value, COMPS):
            comps.append(node.value)
        for sub in ast.iter_child_nodes(node):
            if not isinstance(sub, (*FUNC, ast.Lambda, ast.ClassDef)):
                walk(sub)

    for stmt in func.body:
        if not isinstance(stmt, (*FUNC, ast.ClassDef)):
            walk(stmt)
    return loops, comps


def snapshot(trees: dict[str, ast.Module]) -> dict:
    """The baseline's names."""
    funcs, attrs, shapes = {}, {}, {}
    for mod, tree in trees.items():
        for item in collect(mod, tree):
            funcs[item.qual] = words(item.node)
            loops, comps = iterations(item.node)
            if loops or comps:
                shapes[item.qual] = [[ast.unparse(x) for x in loops], [ast.unparse(x) for x in comps]]
        for node in ast.walk(tree):
            if isinstance(node, ast.ClassDef):
                attrs[f"{mod}.{node.name}"] = attributes(node)
    return {"functions": funcs, "attributes": attrs, "iterations": shapes}


def load_known() -> dict:
    with open(KNOWN, encoding="utf-8") as fd:
        return json.load(fd)


# ---------------------------------------------------------------- renames


def private(name: str) -> bool:
    return name.startswith("_") and not name.startswith("__")


def alike(one: list, two: list) -> float:
    """Similarity of multisets."""
    left, same = list(two), 0
    for item in one:
        if item in left:
            left.remove(item)
            same += 1
    return 2 * same / max(1, len(one) + len(two))


def renames(trees: dict, known: dict) -> dict[str, str]:
    """Names of private functions and attributes that were changed."""
    out: dict[str, str] = {}
    bad: set[str] = set()
    names = {q.rpartition(".")[2] for q in known["functions"]} | {a for attrs in known["attributes"].values() for a in attrs}

    def suggest(new: str, old: str) -> None:
        if new in names or out.get(new, old) != old:
            bad.add(new)
        out[new] = old

    for mod, tree in trees.items():
        defs = collect(mod, tree)
        now = {d.qual: d for d in defs}
        scopes = {mod} | {f"{mod}.{c.name}" for c in tree.body if isinstance(c, ast.ClassDef)}
        gone = [q for q in known["functions"] if q not in now and q.startswith(mod + ".") and (q.rpartition(".")[0] in now or q.rpartition(".")[0] in scopes and private(q.rpartition(".")[2]))]
        fresh = [d for d in defs if d.qual not in known["functions"]]
        for old in gone:
            scope, _, name = old.rpartition(".")
            best = max(
                ((alike(known["functions"][old], words(d.node)), d.qual) for d in fresh if d.qual.rpartition(".")[0] == scope and (d.outer is not None or private(d.node.name))),
                default=(0, ""),
            )
            if best[0] >= 0.6:
                suggest(best[1].rpartition(".")[2], name)
        for node in ast.walk(tree):
            if isinstance(node, ast.ClassDef):
                before = known["attributes"].get(f"{mod}.{node.name}", {})
                after = attributes(node)
                lost = [a for a in before if a not in after and private(a)]
                found = [a for a in after if a not in before and private(a)]
                for old in lost:
                    same = [a for a in found if after[a] == before[old]]
                    others = [a for a in lost if before[a] == before[old]]
                    if len(same) == len(others):
                        suggest(same[others.index(old)], old)
                    elif len(lost) == len(found):
                        suggest(found[lost.index(old)], old)
    return {new: old for new, old in out.items() if new not in bad}


def apply_renames(trees: dict, table: dict[str, str]) -> None:
    for tree in trees.values():
        for node in ast.walk(tree):
            if isinstance(node, ast.Attribute) and node.attr in table:
                node.attr = table[node.attr]
            elif isinstance(node, FUNC) and node.name in table:
                node.name = table[node.name]
            elif isinstance(node, ast.Name) and node.id in table:
                node.id = table[node.id]
            elif isinstance(node, ast.alias) and node.name in table:
                node.name = table[node.name]


# ---------------------------------------------------------------- inlining


def inside(node, kinds) -> bool:
    """Whether a statement has such a node (not within nested functions)."""
    if isinstance(node, kinds):
        return True
    if isinstance(node, (*FUNC, ast.Lambda, ast.ClassDef)):
        return False
    return any(inside(x, kinds) for x in ast.iter_child_nodes(node))


def leaves(stmts: list) -> bool:
    """Whether control never reaches the end of a block."""
    if not stmts:
        return False
    last = stmts[-1]
    if isinstance(last, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    if isinstance(last, ast.If):
        return leaves(last.body) and leaves(last.orelse)
    if isinstance(last, (ast.With, ast.AsyncWith)):
        return leaves(last.body) and not any("suppress" in ast.unparse(i.context_expr) for i in last.items)
    if isinstance(last, ast.Try):
        return leaves(last.finalbody) or leaves(last.body) and all(leaves(h.body) for h in last.handlers)
    return False


def tails(stmts: list, emit) -> list:
    """Replace returns at the end of blocks."""
    out: list = []
    for i, stmt in enumerate(stmts):
        if isinstance(stmt, ast.Return):
            return out + emit(stmt.value, stmt)
        if not inside(stmt, ast.Return):
            out.append(stmt)
            continue
        rest = stmts[i + 1 :]
        if isinstance(stmt, ast.If):
            new = copy.copy(stmt)
            ends = leaves(stmt.body), leaves(stmt.orelse)
            if not any(ends) and len(rest) > 6:
                raise CannotInline("duplicates")
            new.body = tails(stmt.body + ([] if ends[0] else rest), emit)
            new.orelse = tails(stmt.orelse + ([] if ends[1] else (copy.deepcopy(rest) if not ends[0] else rest)), emit)
            new.body = new.body or [ast.copy_location(ast.Pass(), stmt)]
            return out + [new]
        if isinstance(stmt, (ast.With, ast.AsyncWith)) and (not rest or leaves([stmt])):
            new = copy.copy(stmt)
            new.body = tails(stmt.body, emit) or [ast.copy_location(ast.Pass(), stmt)]
            return out + [new]
        if isinstance(stmt, ast.Try) and (not rest or leaves([stmt])):
            if any(inside(x, ast.Return) for x in stmt.finalbody) or stmt.orelse and any(inside(x, ast.Return) for x in stmt.body):
                raise CannotInline("try")
            new = copy.copy(stmt)
            if stmt.orelse:
                new.orelse = tails(stmt.orelse, emit) or [ast.copy_location(ast.Pass(), stmt)]
            else:
                new.body = tails(stmt.body, emit) or [ast.copy_location(ast.Pass(), stmt)]
            new.handlers = []
            for handler in stmt.handlers:
                other = copy.copy(handler)
                other.body = tails(handler.body, emit) or [ast.copy_location(ast.Pass(), stmt)]
                new.handlers.append(other)
            return out + [new]
        raise CannotInline(type(stmt).__name__)
    return out + emit(None, None)


class Rename(ast.NodeTransformer):
    """Replace names (in a copy of a function's body)."""

    def __init__(self, table: dict):
        self.table = table

    def visit_Name(self, node):
        new = self.table.get(node.id)
        if new is None:
            return node
        if isinstance(new, str):
            node.id = new
            return node
        if not isinstance(node.ctx, ast.Load):
            raise CannotInline("stored")
        return ast.copy_location(copy.deepcopy(new), node)

    def visit_ExceptHandler(self, node):
        if isinstance(self.table.get(node.name), str):
            node.name = self.table[node.name]
        return self.generic_visit(node)

    def scoped(self, node):
        args = {a.arg for a in [*node.args.args, *node.args.kwonlyargs, *node.args.posonlyargs] + [x for x in (node.args.vararg, node.args.kwarg) if x]}
        table, self.table = self.table, {k: v for k, v in self.table.items() if k not in args}
        if isinstance(node, FUNC) and isinstance(self.table.get(node.name), str):
            node.name = self.table[node.name]
        out = self.generic_visit(node)
        self.table = table
        return out

    visit_FunctionDef = scoped
    visit_AsyncFunctionDef = scoped
    visit_Lambda = scoped

    def visit_Nonlocal(self, node):
        node.names = [self.table[n] if isinstance(self.table.get(n), str) else n for n in node.names]
        return node


def bound_names(node) -> set[str]:
    """Names that a function binds itself (other than parameters)."""
    out: set[str] = set()
    shared: set[str] = set()

    def walk(sub):
        if isinstance(sub, ast.Name) and isinstance(sub.ctx, (ast.Store, ast.Del)):
            out.add(sub.id)
        elif isinstance(sub, ast.ExceptHandler) and sub.name:
            out.add(sub.name)
        elif isinstance(sub, (ast.Global, ast.Nonlocal)):
            shared.update(sub.names)
        elif isinstance(sub, (ast.Import, ast.ImportFrom)):
            out.update(a.asname or a.name.split(".")[0] for a in sub.names)
        if isinstance(sub, (*FUNC, ast.ClassDef)):
            out.add(sub.name)
            return
        if isinstance(sub, ast.Lambda):
            return
        for x in ast.iter_child_nodes(sub):
            walk(x)

    for stmt in node.body:
        walk(stmt)
    return out - shared


def all_names(node) -> set[str]:
    out = {x.id for x in ast.walk(node) if isinstance(x, ast.Name)} | {a.arg for a in ast.walk(node) if isinstance(a, ast.arg)}
    return out | {x.name for x in ast.walk(node) if isinstance(x, (*FUNC, ast.ExceptHandler)) and x.name}


def pure(node) -> bool:
    return isinstance(node, (ast.Name, ast.Constant)) or isinstance(node, ast.Attribute) and pure(node.value)


class Inliner:
    """Inlines calls of new functions within one program."""

    def __init__(self, trees: dict, known: dict):
        self.trees, self.known = trees, known
        self.count = 0
        self.done: set[int] = set()

    # ------------------------------------------------------------ lookup
    def candidates(self) -> None:
        self.fresh: dict[str, list[Def]] = {}
        total: dict[str, int] = {}
        for mod, tree in self.trees.items():
            for item in collect(mod, tree):
                total[item.node.name] = total.get(item.node.name, 0) + 1
                if item.qual not in self.known["functions"] and self.usable(item):
                    self.fresh.setdefault(item.node.name, []).append(item)
        self.fresh = {k: v for k, v in self.fresh.items() if len(v) == total[k] or all(d.outer is not None for d in v)}

    def usable(self, item: Def) -> bool:
        node = item.node
        if node.name.startswith("__") or node.args.vararg or node.args.kwarg or node.args.posonlyargs:
            return False
        kinds = [d.id if isinstance(d, ast.Name) else "?" for d in node.decorator_list]
        if len(kinds) > 1 or any(k not in ("staticmethod", "classmethod", "property") for k in kinds):
            return False
        if any(isinstance(x, ast.Global) for x in ast.walk(node)):
            return False
        if any(isinstance(x, (ast.Attribute, ast.Name)) and (x.attr if isinstance(x, ast.Attribute) else x.id) == node.name for x in ast.walk(node)):
            return False
        # Functions that are part of an interface of an unknown class aren't helpers.
        if item.cls is not None and f"{item.mod}.{item.cls.name}" not in self.known["attributes"]:
            return False
        return True

    def resolve(self, call, where: Def):
        """The new function that's called."""
        func = call.func
        name = func.attr if isinstance(func, ast.Attribute) else func.id if isinstance(func, ast.Name) else None
        options = self.fresh.get(name) if name else None
        if not options:
            return None
        if isinstance(func, ast.Name):
            for item in options:
                if item.mod != where.mod or item.cls is not None:
                    continue
                if item.outer is None or any(x is where.node or x is item.node for x in [item.outer]):
                    return item
            return None
        options = [d for d in options if d.cls is not None and d.mod == where.mod]
        if len(options) != 1:
            options = [d for d in options if d.cls is where.cls]
        return options[0] if len(options) == 1 and len(self.fresh[name]) in (1, len(options)) or len(options) == 1 and options[0].cls is where.cls else None

    # ------------------------------------------------------------ bodies
    def bindings(self, item: Def, call, where: Def):
        """Map parameters to arguments: [(parameter, annotation, expression)]."""
        node = item.node
        kind = node.decorator_list[0].id if node.decorator_list else ""
        params = list(node.args.args)
        out = []
        if item.cls is not None and kind != "staticmethod":
            recv = call.func.value
            if kind == "classmethod":
                if not (isinstance(recv, ast.Name) and recv.id == "cls"):
                    raise CannotInline("classmethod")
            elif not pure(recv) or isinstance(recv, ast.Name) and recv.id == item.cls.name:
                raise CannotInline("receiver")
            if any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(node)) and not (isinstance(recv, ast.Name) and recv.id == "self" and where.cls is item.cls):
                raise CannotInline("super")
            out.append((params[0].arg, None, recv))
            params = params[1:]
        if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords) or len(call.args) > len(params):
            raise CannotInline("arguments")
        given = {p.arg: a for p, a in zip(params, call.args)}
        for kw in call.keywords:
            if kw.arg in given:
                raise CannotInline("arguments")
            given[kw.arg] = kw.value
        defaults = dict(zip([p.arg for p in params[::-1]], node.args.defaults[::-1]))
        defaults.update({p.arg: d for p, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None})
        order = {**given}
        for param in [*params, *node.args.kwonlyargs]:
            if param.arg not in order:
                if param.arg not in defaults:
                    raise CannotInline("arguments")
                order[param.arg] = defaults[param.arg]
        notes = {p.arg: p.annotation for p in [*params, *node.args.kwonlyargs]}
        if set(order) - set(notes):
            raise CannotInline("arguments")
        return out + [(k, notes[k], v) for k, v in order.items()]

    def instantiate(self, item: Def, call, where: Def) -> list:
        """Statements of a helper with its arguments."""
        node = item.node
        self.count += 1
        taken = all_names(where.root)
        mine = bound_names(node)
        table: dict = {}
        pre: list = []
        for param, note, expr in self.bindings(item, call, where):
            if param not in mine and (isinstance(expr, (ast.Name, ast.Constant)) or param == "self" or item.cls is not None and not note and expr is getattr(call.func, "value", None)):
                # The variable may be changed by the helper if it's a closure.
                if not (item.outer is not None and isinstance(expr, ast.Name)) or True:
                    if isinstance(expr, ast.Name):
                        table[param] = expr.id
                    else:
                        table[param] = expr
                    continue
            fresh = param
            if fresh in taken:
                fresh = f"{param}_h{self.count}"
            table[param] = fresh
            mine.discard(param)
            target = ast.Name(fresh, ast.Store())
            if note is not None:
                pre.append(ast.AnnAssign(target, copy.deepcopy(note), copy.deepcopy(expr), 1))
            else:
                pre.append(ast.Assign([target], copy.deepcopy(expr)))
        for name in mine:
            if name in taken:
                table[name] = f"{name}_h{self.count}"
        body = copy.deepcopy(node.body)
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            body = body[1:]
        # Variables that are shared with the caller remain shared.
        if item.outer is where.node:
            body = [x for x in body if not isinstance(x, ast.Nonlocal)]
        elif any(isinstance(x, ast.Nonlocal) for x in body):
            raise CannotInline("nonlocal")
        rename = Rename({k: v for k, v in table.items() if v != k})
        body = [rename.visit(x) for x in body]
        # Copies are distinct places.
        for stmt in body:
            for sub in ast.walk(stmt):
                if hasattr(sub, "col_offset"):
                    sub.col_offset += 1000 * self.count
        for stmt in pre:
            ast.copy_location(stmt, call)
            ast.fix_missing_locations(stmt)
        return pre + body

    def expression(self, item: Def, call, where: Def):
        """The value of a helper that's a single expression."""
        node = item.node
        body = node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        if len(body) != 1 or not isinstance(body[0], ast.Return) or body[0].value is None:
            return None
        if bound_names(node):
            return None
        table = {}
        for param, _, expr in self.bindings(item, call, where):
            uses = sum(isinstance(x, ast.Name) and x.id == param for x in ast.walk(body[0].value))
            if not pure(expr) and uses > 1:
                return None
            table[param] = expr
        inner = {a.arg for x in ast.walk(body[0].value) if isinstance(x, ast.Lambda) for a in x.args.args}
        inner |= {x.id for x in ast.walk(body[0].value) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        if inner & {x.id for v in table.values() for x in ast.walk(v) if isinstance(x, ast.Name)}:
            return None
        value = Rename({k: v for k, v in table.items() if not (isinstance(v, ast.Name) and v.id == k)}).visit(copy.deepcopy(body[0].value))
        return value

    # ------------------------------------------------------------ statements
    def target(self, expr, where: Def):
        """The helper that an expression's value is that of."""
        call, awaited = (expr.value, True) if isinstance(expr, ast.Await) else (expr, False)
        if isinstance(expr, ast.YieldFrom):
            call = expr.value
        if not isinstance(call, ast.Call):
            return None, None
        item = self.resolve(call, where)
        if item is None or item.node is where.node or any(x is item.node for x in where.parents):
            return None, None
        if item.node.decorator_list and item.node.decorator_list[0].id == "property":
            return None, None
        gen = any(inside(x, (ast.Yield, ast.YieldFrom)) for x in item.node.body)
        if gen != isinstance(expr, ast.YieldFrom):
            return None, None
        if isinstance(item.node, ast.AsyncFunctionDef):
            if not awaited or gen:
                return None, None
        elif awaited:
            return None, None
        return item, call

    def statement(self, stmt, where: Def, tail: bool):
        """Statements that replace a statement (or None)."""
        field = None
        negated = False
        if isinstance(stmt, (ast.Expr, ast.Return, ast.Assign, ast.AnnAssign, ast.AugAssign)):
            field = "value"
        elif isinstance(stmt, (ast.If, ast.Assert)):
            field = "test"
        elif isinstance(stmt, (ast.For, ast.AsyncFor)):
            field = "iter"
        if field is None:
            return None
        expr = getattr(stmt, field)
        if expr is None:
            return None
        if field == "test" and isinstance(expr, ast.UnaryOp) and isinstance(expr.op, ast.Not):
            expr, negated = expr.operand, True
        hoist = None
        item, call = self.target(expr, where)
        if item is None and field in ("test", "value") and isinstance(expr, ast.Compare):
            hoist = expr.left
            item, call = self.target(hoist, where)
        if item is None and isinstance(expr, ast.BoolOp) and field in ("test", "value"):
            hoist = expr.values[0]
            item, call = self.target(hoist, where)
        if item is None:
            return None
        if isinstance(stmt, ast.AugAssign) and not isinstance(stmt.target, ast.Name):
            pass
        body = self.instantiate(item, call, where)
        loc = lambda x: ast.fix_missing_locations(ast.copy_location(x, stmt))  # noqa: E731

        def nothing(value, at):
            if value is None or isinstance(value, (ast.Constant, ast.Name)):
                return []
            return [ast.copy_location(ast.Expr(value), at)]

        if isinstance(stmt, ast.Return) and hoist is None:
            if not leaves(body):
                body = body + [loc(ast.Return(ast.Constant(None)))]
            return body
        if isinstance(stmt, ast.Expr) and hoist is None:
            if tail and not any(inside(x, (ast.Yield, ast.YieldFrom)) for x in body):
                try:
                    return tails(body, nothing) or [loc(ast.Pass())]
                except CannotInline:
                    out = []
                    for sub in body:
                        out.append(strip_returns(sub))
                    return out
            return tails(body, nothing) or [loc(ast.Pass())]
        if isinstance(stmt, (ast.Assign, ast.AnnAssign, ast.AugAssign)) and hoist is None:

            def store(value, at):
                new = copy.deepcopy(stmt) if False else copy.copy(stmt)
                new.value = value if value is not None else loc(ast.Constant(None))
                if isinstance(new, ast.Assign):
                    new.targets = copy.deepcopy(stmt.targets)
                else:
                    new.target = copy.deepcopy(stmt.target)
                return [new]

            return tails(body, store)
        self.count += 1
        temp = f"_inlined_{self.count}"

        def keep(value, at):
            return [loc(ast.Assign([ast.Name(temp, ast.Store())], value if value is not None else ast.Constant(None)))]

        body = tails(body, keep)
        new = copy.copy(stmt)
        value = loc(ast.Name(temp, ast.Load()))
        if hoist is not None:
            whole = copy.copy(expr)
            if isinstance(expr, ast.Compare):
                whole.left = value
            else:
                whole.values = [value, *expr.values[1:]]
            value = whole
        # A single assignment needs no variable.
        if len(body) and isinstance(body[-1], ast.Assign) and isinstance(body[-1].targets[0], ast.Name) and body[-1].targets[0].id == temp and hoist is None:
            value = body.pop().value
        setattr(new, field, loc(ast.UnaryOp(ast.Not(), value)) if negated else value)
        return body + [new]

    def block(self, stmts: list, where: Def, tail: bool) -> list:
        out: list = []
        for i, stmt in enumerate(stmts):
            last = tail and i == len(stmts) - 1
            if isinstance(stmt, (*FUNC, ast.ClassDef)):
                out.append(stmt)
                continue
            stmt = self.expressions(stmt, where)
            try:
                new = self.statement(stmt, where, last)
            except CannotInline:
                new = None
            if new is not None:
                self.changed = True
                out.extend(new)
                continue
            for field in ("body", "orelse", "finalbody"):
                sub = getattr(stmt, field, None)
                if isinstance(sub, list) and sub and isinstance(sub[0], ast.stmt):
                    setattr(stmt, field, self.block(sub, where, last and isinstance(stmt, ast.If)))
            for handler in getattr(stmt, "handlers", ()):
                handler.body = self.block(handler.body, where, False)
            for case in getattr(stmt, "cases", ()):
                case.body = self.block(case.body, where, False)
            out.append(stmt)
        return out

    def expressions(self, stmt, where: Def):
        """Substitute helpers that are single expressions."""
        this = self

        class Visitor(ast.NodeTransformer):
            def visit(self, node):
                if isinstance(node, ast.stmt) and node is not stmt or isinstance(node, (ast.ExceptHandler, ast.match_case)) and False:
                    return node
                return super().visit(node)

            def visit_Await(self, node):
                self.generic_visit(node)
                if isinstance(node.value, ast.Call):
                    item = this.resolve(node.value, where)
                    if item is not None and isinstance(item.node, ast.AsyncFunctionDef) and item.node is not where.node and not item.node.decorator_list:
                        try:
                            value = this.expression(item, node.value, where)
                        except CannotInline:
                            value = None
                        if value is not None:
                            this.changed = True
                            return value
                return node

            def visit_Call(self, node):
                self.generic_visit(node)
                item = this.resolve(node, where)
                if item is None or isinstance(item.node, ast.AsyncFunctionDef) or item.node is where.node:
                    return node
                if item.node.decorator_list and item.node.decorator_list[0].id == "property":
                    return node
                if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(item.node)):
                    return node
                try:
                    value = this.expression(item, node, where)
                except CannotInline:
                    value = None
                if value is None:
                    return node
                this.changed = True
                return value

            def visit_Attribute(self, node):
                self.generic_visit(node)
                options = this.fresh.get(node.attr, ())
                if len(options) != 1 or not isinstance(node.ctx, ast.Load):
                    return node
                item = options[0]
                if item.node is where.node or not (item.node.decorator_list and item.node.decorator_list[0].id == "property") or item.mod != where.mod:
                    return node
                fake = ast.copy_location(ast.Call(node, [], []), node)
                try:
                    value = this.expression(item, fake, where)
                except CannotInline:
                    value = None
                if value is None:
                    return node
                this.changed = True
                return value

        return Visitor().visit(stmt)

    # ------------------------------------------------------------ program
    def run(self) -> None:
        for _ in range(6):
            self.changed = False
            self.candidates()
            if not self.fresh:
                return
            mentioned = {n for tree in self.trees.values() for n in names_used(tree)}
            if not set(self.fresh) & mentioned:
                return
            for mod, tree in self.trees.items():
                defs = collect(mod, tree)
                by_node = {id(d.node): d for d in defs}
                for item in defs:
                    item.parents = []
                    outer = item.outer
                    while outer is not None:
                        item.parents.append(outer)
                        outer = by_node[id(outer)].outer
                    item.root = item.parents[-1] if item.parents else item.node
                    if item.outer is not None:
                        item.cls = by_node[id(item.root)].cls
                for item in defs:
                    here = copy.copy(item)
                    item.node.body = self.block(item.node.body, here, True)
            self.remove()
            if not self.changed:
                return

    def remove(self) -> None:
        """Drop helpers that aren't used anymore."""
        used: dict[str, int] = {}
        for tree in self.trees.values():
            for name in names_used(tree):
                used[name] = used.get(name, 0) + 1
        if not self.changed:
            return
        for mod, tree in self.trees.items():
            for item in collect(mod, tree):
                if item.node.name in self.fresh and item.node.name in self.touched and not used.get(item.node.name) and item.qual not in self.known["functions"]:
                    if item.node in item.body:
                        item.body.remove(item.node)
                        if not item.body:
                            item.body.append(ast.copy_location(ast.Pass(), item.node))

    @property
    def touched(self) -> set:
        return self._touched


def strip_returns(stmt):
    """Returns in the last statements of a function don't need their values."""

    class Visitor(ast.NodeTransformer):
        def visit_Return(self, node):
            node.value = None
            return node

        def visit_FunctionDef(self, node):
            return node

        visit_AsyncFunctionDef = visit_FunctionDef
        visit_Lambda = visit_FunctionDef

    for sub in ast.walk(stmt):
        if isinstance(sub, ast.Return) and sub.value is not None and not isinstance(sub.value, (ast.Constant, ast.Name)):
            raise CannotInline("value")
    return Visitor().visit(stmt)


def names_used(tree):
    for node in ast.walk(tree):
        if isinstance(node, ast.Attribute):
            yield node.attr
        elif isinstance(node, ast.Name):
            yield node.id
        elif isinstance(node, ast.alias):
            yield node.name


# ---------------------------------------------------------------- canonical forms


def empty(node) -> str:
    """The kind of an empty collection."""
    if isinstance(node, ast.List) and not node.elts:
        return "list"
    if isinstance(node, ast.Dict) and not node.keys:
        return "dict"
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("set", "list", "dict") and not node.args and not node.keywords:
        return node.func.id
    return ""


def comprehension(first, second):
    """x = []; for a in b: x.append(c) -> x = [c for a in b]"""
    if isinstance(first, ast.AnnAssign):
        target = first.target
    elif isinstance(first, ast.Assign) and len(first.targets) == 1:
        target = first.targets[0]
    else:
        return None
    if not isinstance(target, ast.Name) or first.value is None or not empty(first.value):
        return None
    kind, name = empty(first.value), target.id
    gens = []
    stmt = second
    while True:
        if isinstance(stmt, ast.For) and not stmt.orelse and len(stmt.body) == 1:
            gens.append(ast.comprehension(stmt.target, stmt.iter, [], 0))
            stmt = stmt.body[0]
        elif isinstance(stmt, ast.If) and gens and not stmt.orelse and len(stmt.body) == 1:
            gens[-1].ifs.append(stmt.test)
            stmt = stmt.body[0]
        else:
            break
    if not gens:
        return None
    new = None
    is_x = lambda n: isinstance(n, ast.Name) and n.id == name  # noqa: E731
    if isinstance(stmt, ast.Expr) and isinstance(stmt.value, ast.Call) and isinstance(stmt.value.func, ast.Attribute) and is_x(stmt.value.func.value) and len(stmt.value.args) == 1 and not stmt.value.keywords:
        if kind == "list" and stmt.value.func.attr == "append":
            new = ast.ListComp(stmt.value.args[0], gens)
        elif kind == "set" and stmt.value.func.attr == "add":
            new = ast.SetComp(stmt.value.args[0], gens)
    elif kind == "dict" and isinstance(stmt, ast.Assign) and len(stmt.targets) == 1 and isinstance(stmt.targets[0], ast.Subscript) and is_x(stmt.targets[0].value):
        new = ast.DictComp(stmt.targets[0].slice, stmt.value, gens)
    if new is None or any(is_x(n) for n in ast.walk(new)) or any(isinstance(n, (ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr)) for n in ast.walk(new)):
        return None
    if any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) for g in gens for n in ast.walk(g.iter)):
        return None
    out = copy.copy(first)
    out.value = ast.copy_location(new, second)
    return ast.fix_missing_locations(out)


def aliases(tree) -> None:
    """x = self, used in place of it."""
    for func in ast.walk(tree):
        if not isinstance(func, FUNC) or not (func.args.posonlyargs + func.args.args):
            continue
        params = {a.arg for a in func.args.posonlyargs + func.args.args + func.args.kwonlyargs}
        for stmts in list(own_blocks(func)):
            for stmt in list(stmts):
                if not (isinstance(stmt, ast.Assign) and len(stmt.targets) == 1 and isinstance(stmt.targets[0], ast.Name) and isinstance(stmt.value, ast.Name) and stmt.value.id in ("self", "cls")):
                    continue
                new, old = stmt.targets[0].id, stmt.value.id
                if old not in params or new in params or len(stmts) == 1:
                    continue
                stores = [n for n in ast.walk(func) if isinstance(n, ast.Name) and n.id in (new, old) and not isinstance(n.ctx, ast.Load)]
                inner = [n for n in ast.walk(func) if n is not func and isinstance(n, (*FUNC, ast.Lambda)) and {a.arg for a in n.args.args} & {new, old}]
                if len(stores) != 1 or inner:
                    continue
                stmts.remove(stmt)
                for n in ast.walk(func):
                    if isinstance(n, ast.Name) and n.id == new:
                        n.id = old


def read(node) -> bool:
    """x.get(y, {})"""
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "get" and not node.keywords:
        return pure(node.func.value) and all(pure(x) or isinstance(x, ast.Dict) and not x.keys for x in node.args)
    return False


def pairwise(stmt) -> None:
    """for k in x: v = x[k] -> for k, v in x.items():"""
    first = stmt.body[0]
    if not (isinstance(stmt.target, ast.Name) and len(stmt.body) > 1 and isinstance(first, ast.Assign) and len(first.targets) == 1 and isinstance(first.targets[0], ast.Name)):
        return
    over = stmt.iter
    if isinstance(over, ast.Call) and isinstance(over.func, ast.Attribute) and over.func.attr == "keys" and not over.args:
        over = over.func.value
    value = first.value
    if not (pure(over) or read(over)) or not (isinstance(value, ast.Subscript) and ast.unparse(value.value) == ast.unparse(over) and isinstance(value.slice, ast.Name) and value.slice.id == stmt.target.id):
        return
    stmt.target = ast.copy_location(ast.Tuple([stmt.target, first.targets[0]], ast.Store()), stmt.target)
    stmt.iter = ast.copy_location(ast.Call(ast.Attribute(over, "items", ast.Load()), [], []), stmt.iter)
    del stmt.body[0]


def canonical(tree) -> None:
    """Equivalent statements get the same form."""
    aliases(tree)
    for node in ast.walk(tree):
        for field in ("body", "orelse", "finalbody"):
            stmts = getattr(node, field, None)
            if not isinstance(stmts, list) or not stmts or not isinstance(stmts[0], ast.stmt) or isinstance(node, (ast.Module, ast.ClassDef)):
                continue
            i = 0
            while i < len(stmts):
                stmt = stmts[i]
                if isinstance(stmt, (ast.For, ast.AsyncFor)):
                    pairwise(stmt)
                # while True: if x: break -> while not x:
                if isinstance(stmt, ast.While) and isinstance(stmt.test, ast.Constant) and stmt.test.value and len(stmt.body) > 1 and not stmt.orelse:
                    head = stmt.body[0]
                    if isinstance(head, ast.If) and not head.orelse and len(head.body) == 1 and isinstance(head.body[0], ast.Break) and not any(isinstance(n, (ast.NamedExpr, ast.Await)) for n in ast.walk(head.test)):
                        test = head.test
                        stmt.test = test.operand if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not) else ast.copy_location(ast.UnaryOp(ast.Not(), test), test)
                        del stmt.body[0]
                # x.y = x.y + z -> x.y += z
                if isinstance(stmt, ast.Assign) and len(stmt.targets) == 1 and isinstance(stmt.targets[0], (ast.Attribute, ast.Name)) and isinstance(stmt.value, ast.BinOp) and isinstance(stmt.value.op, (ast.Add, ast.Sub)):
                    load = copy.copy(stmt.targets[0])
                    if pure(load) and ast.unparse(stmt.value.left) == ast.unparse(load) and not isinstance(stmt.value.right, (ast.List, ast.ListComp, ast.Tuple)):
                        stmts[i] = ast.copy_location(ast.AugAssign(stmt.targets[0], stmt.value.op, stmt.value.right), stmt)
                i += 1


def own_blocks(func):
    """Statement lists of a function (not of nested ones)."""

    def walk(node):
        for field in ("body", "orelse", "finalbody"):
            stmts = getattr(node, field, None)
            if isinstance(stmts, list) and stmts and isinstance(stmts[0], ast.stmt):
                yield stmts
                for stmt in list(stmts):
                    if not isinstance(stmt, (*FUNC, ast.ClassDef)):
                        yield from walk(stmt)
        for handler in getattr(node, "handlers", ()):
            yield from walk(handler)

    yield from walk(func)


def loop(comp, name: str) -> list:
    """x = [c for a in b] -> x = []; for a in b: x.append(c)"""
    var = ast.Name(name, ast.Load())
    if isinstance(comp, ast.DictComp):
        init: ast.expr = ast.Dict([], [])
        body: ast.stmt = ast.Assign([ast.Subscript(var, comp.key, ast.Store())], comp.value)
    else:
        init = ast.List([], ast.Load()) if isinstance(comp, ast.ListComp) else ast.Call(ast.Name("set", ast.Load()), [], [])
        body = ast.Expr(ast.Call(ast.Attribute(var, "append" if isinstance(comp, ast.ListComp) else "add", ast.Load()), [comp.elt], []))
    for gen in reversed(comp.generators):
        for cond in reversed(gen.ifs):
            body = ast.If(cond, [body], [])
        body = ast.For(gen.target, gen.iter, [body], [])
    return [ast.Assign([ast.Name(name, ast.Store())], init), body]


def iterate(mod: str, tree, known: dict) -> None:
    """Loops that became comprehensions (and the other way around) are restored."""
    count = 0
    for item in collect(mod, tree):
        loops, comps = iterations(item.node)
        was_loops, was_comps = known["iterations"].get(item.qual, [[], []])
        fewer = len(was_loops) - len(loops)
        if fewer < 0 and len(comps) < len(was_comps):
            # Loops are new.
            for stmts in list(own_blocks(item.node)):
                i = 0
                while i + 1 < len(stmts):
                    if not (isinstance(stmts[i + 1], ast.For) and ast.unparse(stmts[i + 1]) in was_loops):
                        new = comprehension(stmts[i], stmts[i + 1])
                        if new is not None:
                            stmts[i : i + 2] = [new]
                    i += 1
        elif fewer > 0:
            for stmts in list(own_blocks(item.node)):
                i = 0
                while i < len(stmts) and fewer > 0:
                    stmt = stmts[i]
                    # Including those that are arguments of a call.
                    holder, field = stmt, "value"
                    value = getattr(stmt, "value", None) if isinstance(stmt, (ast.Assign, ast.AnnAssign, ast.Return, ast.Expr)) else None
                    if isinstance(value, ast.Call) and len(value.args) == 1 and not value.keywords and isinstance(value.args[0], (*COMPS, ast.GeneratorExp)):
                        holder, field, value = value, 0, value.args[0]
                        if isinstance(value, ast.GeneratorExp):
                            wrap = getattr(holder.func, "id", "")
                            if wrap in ("list", "set"):
                                value = ast.copy_location((ast.ListComp if wrap == "list" else ast.SetComp)(value.elt, value.generators), value)
                            else:
                                value = None
                    if isinstance(value, COMPS) and not any(g.is_async for g in value.generators) and ast.unparse(value) not in was_comps:
                        count += 1
                        fewer -= 1
                        name = f"_looped_{count}"
                        if isinstance(stmt, (ast.Assign, ast.AnnAssign)) and holder is stmt:
                            tgt = stmt.targets[0] if isinstance(stmt, ast.Assign) and len(stmt.targets) == 1 else stmt.target if isinstance(stmt, ast.AnnAssign) else None
                            if isinstance(tgt, ast.Name) and not any(isinstance(n, ast.Name) and n.id == tgt.id for n in ast.walk(value)):
                                new = loop(value, tgt.id)
                                if isinstance(stmt, ast.AnnAssign):
                                    new[0] = ast.AnnAssign(tgt, stmt.annotation, new[0].value, 1)
                                stmts[i : i + 1] = [ast.fix_missing_locations(ast.copy_location(x, stmt)) for x in new]
                                i += 2
                                continue
                        new = [ast.fix_missing_locations(ast.copy_location(x, stmt)) for x in loop(value, name)]
                        var = ast.copy_location(ast.Name(name, ast.Load()), stmt)
                        if field == 0:
                            holder.args[0] = var
                        else:
                            holder.value = var
                        stmts[i:i] = new
                        i += 2
                    i += 1


def unstable(trees: dict) -> set[str]:
    """Names of attributes that are assigned after initialization."""
    found = set()

    def visit(node, init: bool) -> None:
        for child in ast.iter_child_nodes(node):
            if isinstance(child, FUNC):
                visit(child, child.name == "__init__")
                continue
            if isinstance(child, ast.Attribute) and not isinstance(child.ctx, ast.Load) and not (init and isinstance(child.value, ast.Name) and child.value.id == "self"):
                found.add(child.attr)
            visit(child, init)

    for tree in trees.values():
        visit(tree, False)
    return found


def chain(node) -> list[str]:
    """Attributes of x.a.b."""
    out = []
    while isinstance(node, ast.Attribute):
        out.append(node.attr)
        node = node.value
    return out if isinstance(node, ast.Name) else []


def targets(mod: str, tree, known: dict, moving: set[str]) -> None:
    """New names for attributes of objects (v = a.b; v.c(x)) are replaced."""
    for item in collect(mod, tree):
        before = known["functions"].get(item.qual)
        if before is None:
            continue
        before = set(before)
        func = item.node
        params = {a.arg for a in func.args.posonlyargs + func.args.args + func.args.kwonlyargs}
        for stmts in list(own_blocks(func)):
            for stmt in list(stmts):
                if not (isinstance(stmt, ast.Assign) and len(stmt.targets) == 1 and isinstance(stmt.targets[0], ast.Name) and isinstance(stmt.value, ast.Attribute)):
                    continue
                var, attrs = stmt.targets[0].id, chain(stmt.value)
                if not attrs or var in before or var in params or len(stmts) == 1:
                    continue
                root = stmt.value
                while isinstance(root, ast.Attribute):
                    root = root.value
                nodes = [n for n in ast.walk(func) if isinstance(n, ast.Name)]
                if sum(n.id == var and not isinstance(n.ctx, ast.Load) for n in nodes) != 1 or any(isinstance(n, (ast.Nonlocal, ast.Global)) and var in n.names for n in ast.walk(func)):
                    continue
                uses = [n for n in nodes if n.id == var and isinstance(n.ctx, ast.Load)]
                at = stmts.index(stmt)
                after = stmts[at + 1] if at + 1 < len(stmts) else None
                once = isinstance(after, (ast.Expr, ast.Assign, ast.Return, ast.AugAssign, ast.Assert)) and {id(n) for n in uses} <= {id(n) for n in ast.walk(after)}
                rebound = sum(n.id == root.id and not isinstance(n.ctx, ast.Load) for n in nodes)
                stable = not set(attrs) & moving and not (rebound and root.id in params) and rebound <= 1
                if not uses or not (once or stable):
                    continue
                stmts.remove(stmt)

                class Visitor(ast.NodeTransformer):
                    def visit_Name(self, node, var=var, value=stmt.value):
                        if node.id == var:
                            return ast.copy_location(copy.deepcopy(value), node)
                        return node

                for i, x in enumerate(func.body):
                    func.body[i] = Visitor().visit(x)


def normalize(trees: dict[str, ast.Module], known: dict | None = None) -> None:
    """Normalize the modules of a program in place."""
    if known is None:
        known = load_known()
    table = renames(trees, known)
    if table:
        apply_renames(trees, table)
    inliner = Inliner(trees, known)
    inliner._touched = {n for tree in trees.values() for n in names_used(tree)}
    inliner.run()
    moving = unstable(trees)
    for mod, tree in trees.items():
        targets(mod, tree, known, moving)
        canonical(tree)
        iterate(mod, tree, known)
        ast.fix_missing_locations(tree)

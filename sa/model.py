"""
Whole-program model: modules, classes (C3 linearised), functions, import and
alias resolution, and flow-insensitive attribute types.

Everything here is derived from the abstract syntax trees of the sources found
under ``<root>/<package>``; nothing is imported or executed.
"""

from __future__ import annotations

import ast
import os
from typing import Iterator, Optional

from sa import normal

FuncNode = (ast.FunctionDef, ast.AsyncFunctionDef)

EMPTY: frozenset = frozenset()


class AnalysisError(Exception):
    """Raised when the analyser can't produce an answer."""


def dotted(node: ast.AST) -> Optional[str]:
    """Get the dotted name of a Name/Attribute chain."""
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        base = dotted(node.value)
        return None if base is None else f"{base}.{node.attr}"
    return None


class Func:
    """A function, method or nested function."""

    def __init__(self, node, module: "Module", cls: Optional["Class"], outer):
        self.node = node
        self.module = module
        self.cls = cls
        self.outer = outer
        self.name = getattr(node, "name", "<lambda>")
        prefix = (
            outer.qual + ".<locals>"
            if outer is not None
            else (cls.qual if cls is not None else module.name)
        )
        self.qual = f"{prefix}.{self.name}"
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        self.decorators = [
            module.resolve_dotted(dotted(d.func if isinstance(d, ast.Call) else d) or "?")
            for d in getattr(node, "decorator_list", [])
        ]
        self.is_generator = _has_yield(node)

    def has_deco(self, *names: str) -> bool:
        return any(d.split(".")[-1] in names or d in names for d in self.decorators)

    @property
    def is_property(self) -> bool:
        return self.has_deco("property", "cached_property")

    @property
    def is_setter(self) -> bool:
        return any(d.endswith(".setter") for d in self.decorators)

    @property
    def is_static(self) -> bool:
        return self.has_deco("staticmethod")

    @property
    def is_classmethod(self) -> bool:
        return self.has_deco("classmethod")

    @property
    def is_cm(self) -> bool:
        return self.has_deco("contextmanager", "asynccontextmanager", "_contextmanager", "_asynccontextmanager")

    @property
    def is_abstract(self) -> bool:
        return self.has_deco("abstractmethod", "_abstractmethod")

    @property
    def where(self) -> str:
        return f"{self.module.rel}:{getattr(self.node, 'lineno', 0)}"

    def params(self) -> list[ast.arg]:
        a = self.node.args
        return [*a.posonlyargs, *a.args]

    def __repr__(self) -> str:
        return f"<Func {self.qual}>"


def _has_yield(node) -> bool:
    """Determine if a function body (not nested functions) yields."""
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    while stack:
        cur = stack.pop()
        if isinstance(cur, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(cur, (*FuncNode, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(cur))
    return False


class Class:
    """A class definition."""

    def __init__(self, node: ast.ClassDef, module: "Module", outer=None):
        self.node = node
        self.module = module
        self.name = node.name
        self.outer = outer
        self.qual = (
            f"{outer.qual}.<locals>.{node.name}"
            if outer is not None
            else f"{module.name}.{node.name}"
        )
        self.methods: dict[str, Func] = {}
        self.setters: dict[str, Func] = {}
        self.annotations: dict[str, ast.expr] = {}
        self.assigns: dict[str, ast.expr] = {}
        for item in node.body:
            if isinstance(item, FuncNode):
                func = Func(item, module, self, None)
                if func.is_setter:
                    self.setters[func.name] = func
                else:
                    self.methods[func.name] = func
            elif isinstance(item, ast.AnnAssign) and isinstance(item.target, ast.Name):
                self.annotations[item.target.id] = item.annotation
                if item.value is not None:
                    self.assigns[item.target.id] = item.value
            elif isinstance(item, ast.Assign):
                for tgt in item.targets:
                    if isinstance(tgt, ast.Name):
                        self.assigns[tgt.id] = item.value
        self._mro: Optional[list] = None
        self._attr_exprs: Optional[dict] = None

    @property
    def where(self) -> str:
        return f"{self.module.rel}:{self.node.lineno}"

    def base_names(self) -> list[str]:
        """Get fully-qualified base names."""
        result = []
        for base in self.node.bases:
            while isinstance(base, ast.Subscript):
                base = base.value
            name = dotted(base)
            if name is not None:
                result.append(self.module.resolve_dotted(name))
        return result

    def __repr__(self) -> str:
        return f"<Class {self.qual}>"


class Module:
    """A source module."""

    def __init__(self, name: str, path: str, rel: str, program: "Program", is_pkg: bool):
        self.name = name
        self.path = path
        self.rel = rel
        self.program = program
        if rel in program.overrides:
            self.source = program.overrides[rel]
        else:
            with open(path, encoding="utf-8") as fd:
                self.source = fd.read()
        try:
            self.tree = ast.parse(self.source, filename=path)
        except SyntaxError as exc:
            raise AnalysisError(f"{rel} doesn't parse: {exc}") from exc
        self.imports: dict[str, str] = {}
        self.functions: dict[str, Func] = {}
        self.classes: dict[str, Class] = {}
        self.globals: dict[str, ast.expr] = {}
        self.global_ann: dict[str, ast.expr] = {}
        pkg = name if is_pkg else name.rpartition(".")[0]
        for node in ast.walk(self.tree):
            if isinstance(node, ast.Import):
                for alias in node.names:
                    if alias.asname:
                        self.imports[alias.asname] = alias.name
                    else:
                        self.imports[alias.name.split(".")[0]] = alias.name.split(".")[0]
            elif isinstance(node, ast.ImportFrom):
                base = node.module or ""
                if node.level:
                    parts = pkg.split(".")
                    parts = parts[: len(parts) - (node.level - 1)]
                    base = ".".join(parts + ([base] if base else []))
                for alias in node.names:
                    self.imports[alias.asname or alias.name] = f"{base}.{alias.name}"

    def index(self) -> None:
        """Index top-level definitions."""

        def visit(body) -> None:
            for item in body:
                if isinstance(item, FuncNode):
                    self.functions[item.name] = Func(item, self, None, None)
                elif isinstance(item, ast.ClassDef):
                    self.classes[item.name] = Class(item, self)
                elif isinstance(item, ast.Assign):
                    for tgt in item.targets:
                        if isinstance(tgt, ast.Name):
                            self.globals[tgt.id] = item.value
                elif isinstance(item, ast.AnnAssign) and isinstance(item.target, ast.Name):
                    self.global_ann[item.target.id] = item.annotation
                    if item.value is not None:
                        self.globals[item.target.id] = item.value
                elif isinstance(item, (ast.If, ast.Try, ast.With)):
                    visit(item.body)
                    visit(getattr(item, "orelse", []))
                    for handler in getattr(item, "handlers", []):
                        visit(handler.body)

        visit(self.tree.body)

    def resolve_dotted(self, name: str) -> str:
        """Resolve a dotted name local to this module (best effort)."""
        head, _, rest = name.partition(".")
        if head in self.classes or head in self.functions or head in self.globals:
            base = f"{self.name}.{head}"
        elif head in self.imports:
            base = self.imports[head]
        else:
            return name
        return self.program.canonical(f"{base}.{rest}" if rest else base)


class Program:
    """The whole analysed program."""

    def __init__(self, root: str, package: str = "runtimepy", overrides: Optional[dict] = None) -> None:
        self.overrides = overrides or {}
        self.root = root
        self.package = package
        self.modules: dict[str, Module] = {}
        self._canon: dict[str, str] = {}
        base = os.path.join(root, package)
        if not os.path.isdir(base):
            raise AnalysisError(f"no package at {base}")
        for dirpath, dirnames, filenames in os.walk(base):
            dirnames[:] = sorted(d for d in dirnames if d != "__pycache__")
            for filename in sorted(filenames):
                if not filename.endswith(".py"):
                    continue
                path = os.path.join(dirpath, filename)
                rel = os.path.relpath(path, root)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                name = ".".join(parts)
                self.modules[name] = Module(name, path, rel, self, is_pkg)
        if os.environ.get("SA_NORMALIZE", "1") == "1":
            normal.normalize({module.name: module.tree for module in self.modules.values()})
        for module in self.modules.values():
            module.index()
        self.classes: dict[str, Class] = {}
        self.functions: dict[str, Func] = {}
        self._index_all()
        self._attr_types: dict[tuple, frozenset] = {}
        self._children: Optional[dict] = None

    # ---------------------------------------------------------------- index
    def _index_all(self) -> None:
        self.lambdas: dict[int, Func] = {}
        self.func_by_node: dict[int, Func] = {}

        def add_func(func: Func) -> None:
            self.functions[func.qual] = func
            self.func_by_node[id(func.node)] = func
            nested(func, func.node.body if isinstance(func.node.body, list) else [func.node.body])

        def nested(outer: Func, body) -> None:
            stack = list(body)
            while stack:
                cur = stack.pop()
                if isinstance(cur, FuncNode):
                    f = Func(cur, outer.module, None, outer)
                    add_func(f)
                elif isinstance(cur, ast.Lambda):
                    f = Func(cur, outer.module, None, outer)
                    self.func_by_node[id(cur)] = f
                    stack.extend(ast.iter_child_nodes(cur))
                elif isinstance(cur, ast.ClassDef):
                    cls = Class(cur, outer.module, outer)
                    self.classes[cls.qual] = cls
                    for meth in (*cls.methods.values(), *cls.setters.values()):
                        meth.outer_scope = outer  # type: ignore
                        add_func(meth)
                else:
                    stack.extend(ast.iter_child_nodes(cur))

        for module in self.modules.values():
            for func in module.functions.values():
                add_func(func)
            for cls in module.classes.values():
                self.classes[cls.qual] = cls
                for meth in (*cls.methods.values(), *cls.setters.values()):
                    add_func(meth)
                for expr in cls.assigns.values():
                    for sub in ast.walk(expr):
                        if isinstance(sub, ast.Lambda):
                            self.func_by_node[id(sub)] = Func(sub, module, cls, None)
            for expr in module.globals.values():
                for sub in ast.walk(expr):
                    if isinstance(sub, ast.Lambda):
                        self.func_by_node[id(sub)] = Func(sub, module, None, None)

    def all_functions(self) -> Iterator[Func]:
        seen = set()
        for func in [*self.functions.values()]:
            if id(func.node) not in seen:
                seen.add(id(func.node))
                yield func
        for func in [*self.func_by_node.values()]:
            if id(func.node) not in seen and not isinstance(func.node, ast.Lambda):
                seen.add(id(func.node))
                yield func

    # ----------------------------------------------------------- resolution
    def canonical(self, name: str, depth: int = 0) -> str:
        """
        Follow re-exports and simple aliases to the defining dotted name.
        """
        if depth > 12:
            return name
        cached = self._canon.get(name)
        if cached is not None:
            return cached
        result = name
        parts = name.split(".")
        for i in range(len(parts), 0, -1):
            modname = ".".join(parts[:i])
            module = self.modules.get(modname)
            if module is None:
                continue
            rest = parts[i:]
            if not rest:
                break
            head = rest[0]
            if head in module.classes or head in module.functions:
                break
            tail = ("." + ".".join(rest[1:])) if rest[1:] else ""
            if head in module.globals:
                target = dotted(module.globals[head])
                if target is not None and target != head:
                    new = module.resolve_dotted(target)
                    if new != name and (
                        new in getattr(self, "classes", {}) or self._exists(new)
                    ):
                        result = self.canonical(new + tail, depth + 1)
                break
            if head in module.imports:
                result = self.canonical(module.imports[head] + tail, depth + 1)
            break
        if hasattr(self, "classes"):
            self._canon[name] = result
        return result

    def _exists(self, name: str) -> bool:
        mod, _, attr = name.rpartition(".")
        module = self.modules.get(mod)
        return module is not None and (
            attr in module.classes or attr in module.functions
        )

    def cls(self, name: str) -> Optional[Class]:
        return self.classes.get(self.canonical(name))

    def need_cls(self, name: str) -> Class:
        result = self.cls(name)
        if result is None:
            raise AnalysisError(f"anchor class {name} not found")
        return result

    def func(self, name: str) -> Optional[Func]:
        return self.functions.get(self.canonical(name))

    def need_func(self, name: str) -> Func:
        result = self.func(name)
        if result is None:
            raise AnalysisError(f"anchor function {name} not found")
        return result

    # ------------------------------------------------------------------ mro
    def mro(self, cls: Class) -> list:
        """C3 linearisation; external bases appear as strings."""
        if cls._mro is not None:
            return cls._mro
        cls._mro = [cls]  # recursion guard
        seqs: list[list] = []
        bases: list = []
        for name in cls.base_names():
            base = self.classes.get(self.canonical(name))
            if base is not None:
                seqs.append(list(self.mro(base)))
                bases.append(base)
            else:
                seqs.append([name])
                bases.append(name)
        seqs.append(list(bases))
        result: list = [cls]
        while any(seqs):
            seqs = [s for s in seqs if s]
            for seq in seqs:
                cand = seq[0]
                if not any(cand in s[1:] for s in seqs):
                    break
            else:
                cand = seqs[0][0]
            result.append(cand)
            for seq in seqs:
                if seq and seq[0] == cand:
                    del seq[0]
        cls._mro = result
        return result

    def mro_classes(self, cls: Class) -> list[Class]:
        return [c for c in self.mro(cls) if isinstance(c, Class)]

    def is_subclass(self, cls: Class, name: str) -> bool:
        name = self.canonical(name)
        return any(
            (c.qual if isinstance(c, Class) else c) == name for c in self.mro(cls)
        )

    def subclasses(self, name: str) -> list[Class]:
        return [c for c in self.classes.values() if self.is_subclass(c, name)]

    def lookup(self, cls: Class, name: str, after: Optional[Class] = None) -> Optional[Func]:
        """Find a method by MRO (optionally after a class, for super())."""
        chain = self.mro_classes(cls)
        if after is not None:
            if after in chain:
                chain = chain[chain.index(after) + 1 :]
            else:
                chain = self.mro_classes(after)[1:]
        for item in chain:
            if name in item.methods:
                return item.methods[name]
        return None

    def lookup_setter(self, cls: Class, name: str) -> Optional[Func]:
        for item in self.mro_classes(cls):
            if name in item.setters:
                return item.setters[name]
        return None

    # ---------------------------------------------------------------- types
    # A type is (qualname, (args...)), args being frozensets of types.
    def ann_types(self, node: Optional[ast.expr], module: Module, cls: Optional[Class] = None, depth: int = 0) -> frozenset:
        """Parse an annotation into a set of types."""
        if node is None or depth > 10:
            return EMPTY
        if isinstance(node, ast.Constant):
            if isinstance(node.value, str):
                try:
                    return self.ann_types(ast.parse(node.value, mode="eval").body, module, cls, depth + 1)
                except SyntaxError:
                    return EMPTY
            return EMPTY
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            return self.ann_types(node.left, module, cls, depth + 1) | self.ann_types(node.right, module, cls, depth + 1)
        if isinstance(node, ast.Subscript):
            head = module.resolve_dotted(dotted(node.value) or "?")
            short = head.split(".")[-1].lstrip("_")
            items = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
            if short in ("Optional", "Union"):
                out: frozenset = EMPTY
                for item in items:
                    out |= self.ann_types(item, module, cls, depth + 1)
                return out
            args = tuple(self.ann_types(i, module, cls, depth + 1) for i in items)
            base = self._named(head, node.value, module, cls, depth)
            if len(base) == 1:
                name = next(iter(base))[0]
                return frozenset([(name, args)])
            return frozenset([(short if short.lower() in BUILTIN_GENERICS else head, args)])
        name = dotted(node)
        if name is None:
            return EMPTY
        return self._named(module.resolve_dotted(name), node, module, cls, depth)

    def _named(self, full: str, node, module: Module, cls, depth: int) -> frozenset:
        if full in self.classes:
            return frozenset([(full, ())])
        # Globals: TypeVars and type aliases.
        modname, _, attr = full.rpartition(".")
        target = self.modules.get(modname)
        if target is not None and attr in target.globals:
            expr = target.globals[attr]
            if isinstance(expr, ast.Call):
                fn = dotted(expr.func) or ""
                if fn.split(".")[-1].lstrip("_") == "TypeVar":
                    out: frozenset = EMPTY
                    for arg in expr.args[1:]:
                        out |= self.ann_types(arg, target, cls, depth + 1)
                    for kw in expr.keywords:
                        if kw.arg == "bound":
                            out |= self.ann_types(kw.value, target, cls, depth + 1)
                    return out
                return EMPTY
            return self.ann_types(expr, target, cls, depth + 1)
        if "." not in full and full in ("None",):
            return EMPTY
        short = full.split(".")[-1]
        if full in ("typing.Any", "Any"):
            return EMPTY
        if short in ("Self",) and cls is not None:
            return frozenset([(cls.qual, ())])
        return frozenset([(full, ())])

    def attr_exprs(self, cls: Class) -> dict:
        """Collect `self.<attr> = expr` for one class (not the MRO)."""
        if cls._attr_exprs is not None:
            return cls._attr_exprs
        result: dict[str, list] = {}
        for meth in (*cls.methods.values(), *cls.setters.values()):
            params = meth.params()
            if not params or meth.is_static:
                continue
            me = params[0].arg
            for node in ast.walk(meth.node):
                pairs = []
                if isinstance(node, ast.Assign):
                    for tgt in node.targets:
                        if isinstance(tgt, ast.Tuple) and isinstance(node.value, ast.Tuple) and len(tgt.elts) == len(node.value.elts):
                            pairs += [(t, v, None) for t, v in zip(tgt.elts, node.value.elts)]
                        else:
                            pairs.append((tgt, node.value, None))
                elif isinstance(node, ast.AnnAssign):
                    pairs.append((node.target, node.value, node.annotation))
                for tgt, value, ann in pairs:
                    if (
                        isinstance(tgt, ast.Attribute)
                        and isinstance(tgt.value, ast.Name)
                        and tgt.value.id == me
                    ):
                        result.setdefault(tgt.attr, []).append((value, ann, meth))
        cls._attr_exprs = result
        return result

    def attr_types(self, qual: str, attr: str) -> frozenset:
        """Get the possible types of an attribute of a class instance."""
        key = (qual, attr)
        if key in self._attr_types:
            return self._attr_types[key]
        self._attr_types[key] = EMPTY
        cls = self.classes.get(qual)
        out: frozenset = EMPTY
        if cls is not None:
            for item in self.mro_classes(cls):
                if attr in item.annotations:
                    out = self.ann_types(item.annotations[attr], item.module, item)
                    if out:
                        break
                meth = item.methods.get(attr)
                if meth is not None:
                    if meth.is_property:
                        out = self.ann_types(meth.node.returns, item.module, item)
                    break
                anns = [(a, m) for _, a, m in self.attr_exprs(item).get(attr, []) if a is not None]
                if anns:
                    for ann, meth in anns:
                        out |= self.ann_types(ann, item.module, item)
                    break
                exprs = self.attr_exprs(item).get(attr, [])
                for value, _, meth in exprs:
                    out |= self.expr_types(value, meth, cls)
                if attr in item.assigns and not out:
                    out |= self.expr_types(item.assigns[attr], None, item)
                if out:
                    break
        self._attr_types[key] = out
        return out

    def local_types(self, name: str, func: Optional[Func], cls, depth: int = 0) -> frozenset:
        """Flow-insensitive type of a name within a function."""
        while func is not None:
            args = func.node.args
            params = func.params()
            for i, arg in enumerate(params):
                if arg.arg == name:
                    if arg.annotation is not None:
                        got = self.ann_types(arg.annotation, func.module, func.cls)
                        if got:
                            return got
                    if i == 0 and func.cls is not None and not func.is_static:
                        use = cls if cls is not None and func.cls in self.mro_classes(cls) else func.cls
                        if func.is_classmethod:
                            return frozenset([("type", (frozenset([(use.qual, ())]),))])
                        return frozenset([(use.qual, ())])
                    return EMPTY
            for arg in args.kwonlyargs:
                if arg.arg == name:
                    return self.ann_types(arg.annotation, func.module, func.cls)
            out: frozenset = EMPTY
            found = False
            if depth < 6 and isinstance(func.node, FuncNode):
                stack = list(func.node.body)
                while stack:
                    node = stack.pop()
                    if isinstance(node, (*FuncNode, ast.ClassDef)):
                        if node.name == name:
                            found = True
                        continue
                    if isinstance(node, ast.AnnAssign) and isinstance(node.target, ast.Name) and node.target.id == name:
                        found = True
                        out |= self.ann_types(node.annotation, func.module, func.cls)
                    elif isinstance(node, ast.Assign):
                        for tgt in node.targets:
                            if isinstance(tgt, ast.Name) and tgt.id == name:
                                found = True
                                out |= self.expr_types(node.value, func, cls, depth + 1)
                            elif isinstance(tgt, ast.Tuple):
                                for i, elt in enumerate(tgt.elts):
                                    if isinstance(elt, ast.Name) and elt.id == name:
                                        found = True
                                        for tname, targs in self.expr_types(node.value, func, cls, depth + 1):
                                            if tname in ("tuple", "Tuple", "typing.Tuple") and i < len(targs):
                                                out |= targs[i]
                    elif isinstance(node, (ast.For, ast.AsyncFor)):
                        got = self._iter_target(node.target, node.iter, name, func, cls, depth)
                        if got is not None:
                            found = True
                            out |= got
                    elif isinstance(node, (ast.With, ast.AsyncWith)):
                        for item in node.items:
                            if isinstance(item.optional_vars, ast.Name) and item.optional_vars.id == name:
                                found = True
                                for tname, targs in self.expr_types(item.context_expr, func, cls, depth + 1):
                                    if tname.split(".")[-1].lstrip("_") in ("Iterator", "AsyncIterator", "Generator") and targs:
                                        out |= targs[0]
                                    else:
                                        out |= frozenset([(tname, targs)])
                    elif isinstance(node, ast.NamedExpr) and isinstance(node.target, ast.Name) and node.target.id == name:
                        found = True
                        out |= self.expr_types(node.value, func, cls, depth + 1)
                    elif isinstance(node, ast.comprehension):
                        got = self._iter_target(node.target, node.iter, name, func, cls, depth)
                        if got is not None:
                            found = True
                            out |= got
                    stack.extend(ast.iter_child_nodes(node))
            if found:
                return out
            func = func.outer if func.outer is not None else getattr(func, "outer_scope", None)
        return EMPTY

    def _iter_target(self, target, iterexpr, name, func, cls, depth):
        names = []
        if isinstance(target, ast.Name):
            names = [(target.id, None)]
        elif isinstance(target, ast.Tuple):
            names = [(e.id, i) for i, e in enumerate(target.elts) if isinstance(e, ast.Name)]
        for got, idx in names:
            if got == name:
                elem = self.elem_types(self.expr_types(iterexpr, func, cls, depth + 1))
                if idx is None:
                    return elem
                out: frozenset = EMPTY
                for tname, targs in elem:
                    if tname in ("tuple", "Tuple", "typing.Tuple") and idx < len(targs):
                        out |= targs[idx]
                return out
        return None

    @staticmethod
    def elem_types(types: frozenset) -> frozenset:
        out: frozenset = EMPTY
        for tname, targs in types:
            short = tname.split(".")[-1].lstrip("_").lower()
            if not targs:
                continue
            if short in ("dict", "defaultdict", "mapping", "list", "set", "iterator", "asynciterator", "iterable", "sequence", "frozenset", "deque", "queue"):
                out |= targs[0]
            elif short == "tuple":
                for item in targs:
                    out |= item
            elif short == "items":
                out |= frozenset([("tuple", targs)])
        return out

    def expr_types(self, node: Optional[ast.expr], func: Optional[Func], cls, depth: int = 0) -> frozenset:
        """Flow-insensitive type of an expression."""
        if node is None or depth > 8:
            return EMPTY
        module = func.module if func is not None else (cls.module if cls is not None else None)
        if isinstance(node, ast.Await):
            return self.expr_types(node.value, func, cls, depth + 1)
        if isinstance(node, ast.Constant):
            if node.value is None:
                return EMPTY
            return frozenset([(type(node.value).__name__, ())])
        if isinstance(node, ast.JoinedStr):
            return frozenset([("str", ())])
        if isinstance(node, ast.IfExp):
            return self.expr_types(node.body, func, cls, depth + 1) | self.expr_types(node.orelse, func, cls, depth + 1)
        if isinstance(node, ast.BoolOp):
            out: frozenset = EMPTY
            for val in node.values:
                out |= self.expr_types(val, func, cls, depth + 1)
            return out
        if isinstance(node, (ast.List, ast.ListComp, ast.Set, ast.Dict, ast.DictComp, ast.SetComp, ast.Tuple)):
            kind = {ast.List: "list", ast.ListComp: "list", ast.Set: "set", ast.SetComp: "set", ast.Dict: "dict", ast.DictComp: "dict", ast.Tuple: "tuple"}[type(node)]
            if isinstance(node, (ast.List, ast.Set)):
                inner: frozenset = EMPTY
                for elt in node.elts:
                    inner |= self.expr_types(elt, func, cls, depth + 1)
                return frozenset([(kind, (inner,))]) if inner else frozenset([(kind, ())])
            if isinstance(node, ast.Tuple):
                return frozenset([(kind, tuple(self.expr_types(e, func, cls, depth + 1) for e in node.elts))])
            return frozenset([(kind, ())])
        if isinstance(node, ast.Name):
            got = self.local_types(node.id, func, cls, depth + 1)
            if got:
                return got
            if module is not None:
                return self.global_types(module, node.id, depth)
            return EMPTY
        if isinstance(node, ast.Attribute):
            base = self.expr_types(node.value, func, cls, depth + 1)
            out = EMPTY
            for tname, targs in base:
                if tname == "type" and targs:
                    for iname, _ in targs[0]:
                        out |= self.attr_types(iname, node.attr)
                else:
                    out |= self.attr_types(tname, node.attr)
            if not out and module is not None:
                full = module.resolve_dotted(dotted(node) or "?")
                modname, _, attr = full.rpartition(".")
                target = self.modules.get(modname)
                if target is not None:
                    return self.global_types(target, attr, depth)
            return out
        if isinstance(node, ast.Subscript):
            base = self.expr_types(node.value, func, cls, depth + 1)
            return self.subscript_types(base, node.slice.value if isinstance(node.slice, ast.Constant) else None)
        if isinstance(node, ast.Call):
            return self.call_types(node, func, cls, depth)
        return EMPTY

    def subscript_types(self, base: frozenset, index=None) -> frozenset:
        out: frozenset = EMPTY
        for tname, targs in base:
            short = tname.split(".")[-1].lstrip("_").lower()
            if short in ("dict", "defaultdict", "mapping") and len(targs) > 1:
                out |= targs[1]
            elif short in ("list", "sequence", "deque") and targs:
                out |= targs[0]
            elif short == "tuple" and targs:
                if isinstance(index, int) and index < len(targs):
                    out |= targs[index]
                else:
                    for item in targs:
                        out |= item
            elif tname in self.classes:
                meth = self.lookup(self.classes[tname], "__getitem__")
                if meth is not None:
                    out |= self.ann_types(meth.node.returns, meth.module, meth.cls)
        return out

    def global_types(self, module: Module, name: str, depth: int = 0) -> frozenset:
        full = module.resolve_dotted(name)
        if full in self.classes:
            return frozenset([("type", (frozenset([(full, ())]),))])
        modname, _, attr = full.rpartition(".")
        target = self.modules.get(modname)
        if target is not None:
            if attr in target.global_ann:
                return self.ann_types(target.global_ann[attr], target)
            if attr in target.globals and depth < 6:
                expr = target.globals[attr]
                if isinstance(expr, ast.Call):
                    fn = target.resolve_dotted(dotted(expr.func) or "?")
                    if fn in self.classes:
                        return frozenset([(fn, ())])
                    got = self.func(fn)
                    if got is not None:
                        return self.ann_types(got.node.returns, got.module, got.cls)
        return EMPTY

    def call_types(self, node: ast.Call, func, cls, depth: int) -> frozenset:
        module = func.module if func is not None else (cls.module if cls is not None else None)
        fn = node.func
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
                owner = func.cls if func is not None else None
                if owner is not None:
                    meth = self.lookup(cls or owner, fn.attr, after=owner)
                    if meth is not None:
                        return self.ret_types(meth, cls)
                return EMPTY
            base = self.expr_types(fn.value, func, cls, depth + 1)
            out: frozenset = EMPTY
            for tname, targs in base:
                out |= self.method_ret_types(tname, targs, fn.attr)
            if out:
                return out
        name = dotted(fn)
        if name is None or module is None:
            return EMPTY
        if isinstance(fn, ast.Name):
            local = self.local_types(fn.id, func, cls, depth + 1)
            for tname, targs in local:
                if tname == "type" and targs:
                    return targs[0]
        full = module.resolve_dotted(name)
        if full in self.classes:
            return frozenset([(full, ())])
        got = self.func(full)
        if got is not None:
            return self.ret_types(got, cls)
        # Nested functions.
        scope = func
        while scope is not None and isinstance(fn, ast.Name):
            cand = self.functions.get(f"{scope.qual}.<locals>.{fn.id}")
            if cand is not None:
                return self.ret_types(cand, cls)
            scope = scope.outer
        if full in ("list", "sorted", "set", "iter", "reversed") and node.args:
            inner = self.elem_types(self.expr_types(node.args[0], func, cls, depth + 1))
            return frozenset([("list", (inner,))])
        if full == "cast" or full.endswith("typing.cast"):
            return self.ann_types(node.args[0], module, func.cls if func else None) if node.args else EMPTY
        if full in ("copy.copy", "copy.deepcopy") and node.args:
            return self.expr_types(node.args[0], func, cls, depth + 1)
        if "." in full or full in ("str", "bytes", "int", "float", "bool", "dict", "bytearray"):
            return frozenset([(full, ())])
        return EMPTY

    def ret_types(self, meth: Func, cls) -> frozenset:
        return self.ann_types(getattr(meth.node, "returns", None), meth.module, meth.cls)

    def method_ret_types(self, tname: str, targs: tuple, attr: str) -> frozenset:
        if tname == "type" and targs:
            out: frozenset = EMPTY
            for iname, _ in targs[0]:
                if iname in self.classes:
                    meth = self.lookup(self.classes[iname], attr)
                    if meth is not None:
                        ret = self.ret_types(meth, None)
                        out |= ret
            return out
        if tname in self.classes:
            meth = self.lookup(self.classes[tname], attr)
            if meth is not None:
                return self.ret_types(meth, self.classes[tname])
            # Callable instances stored as attributes.
            return EMPTY
        short = tname.split(".")[-1].lstrip("_").lower()
        if short in ("dict", "defaultdict", "mapping") and len(targs) == 2:
            if attr in ("values",):
                return frozenset([("list", (targs[1],))])
            if attr in ("items",):
                return frozenset([("items", targs)])
            if attr in ("keys",):
                return frozenset([("list", (targs[0],))])
            if attr in ("get", "pop", "setdefault"):
                return targs[1]
        if short in ("list", "deque") and targs and attr in ("pop", "popleft", "copy"):
            return targs[0] if attr != "copy" else frozenset([(tname, targs)])
        if short == "queue" and targs and attr in ("get", "get_nowait"):
            return targs[0]
        return EMPTY


BUILTIN_GENERICS = {"list", "dict", "set", "tuple", "type", "iterator", "frozenset", "defaultdict"}

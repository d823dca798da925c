"""Helpers shared by property modules."""

from __future__ import annotations

import ast

from sa import terms as T
from sa.interp import norm


def mentions_of(p) -> dict:
    """Functions that mention a name (or an attribute of it)."""
    index = getattr(p, "_mention_index", None)
    if index is None:
        index = p._mention_index = {}
        for func in p.all_functions():
            for node in ast.walk(func.node):
                name = node.attr if isinstance(node, ast.Attribute) else node.id if isinstance(node, ast.Name) else None
                if name is not None:
                    index.setdefault(name, {})[func.qual] = func
    return index


def homes(p, func, depth: int = 4, stop=()) -> list:
    """
    The functions whose behaviour a function is part of: itself, or (for
    private helpers that are only mentioned by other functions) these.
    """
    if func.name in stop or depth == 0 or not func.name.startswith("_") or func.name.startswith("__") or func.outer is not None:
        return [func]
    if func.cls is not None and any(func.name in c.methods for c in p.mro_classes(func.cls) if c is not func.cls):
        return [func]
    # Mentions in nested functions count for these only.
    users = [f for f in mentions_of(p).get(func.name, {}).values() if f is not func]
    if not users:
        return [func]
    out = {}
    for user in users:
        while user.outer is not None:
            user = user.outer
        if user is func:
            continue
        for home in homes(p, user, depth - 1, stop):
            out[home.qual] = home
    return list(out.values())


def at_home(p, func, *names, cls=None) -> bool:
    """Whether code of a function only runs as part of these methods."""
    return all(h.name in names and (cls is None or h.cls is not None and p.is_subclass(h.cls, cls)) for h in homes(p, func, stop=names))


def facts_of(st) -> list[tuple]:
    """Path facts with stripped atoms."""
    return [(T.strip(atom), pol) for atom, pol in st.facts]


def knows(st, pred, polarity=None) -> bool:
    """Determine if a fact satisfying a predicate is known on a path."""
    return any(pred(atom) and (polarity is None or pol == polarity) for atom, pol in facts_of(st))


def truth_of(st, term):
    """The known truth value of a term on a path (or None)."""
    atom, pol = norm(term)
    if atom is None:
        return pol
    if (atom, pol) in st.facts:
        return True
    if (atom, not pol) in st.facts:
        return False
    target = T.strip(atom)
    for other, opol in st.facts:
        if T.strip(other) == target:
            return opol == pol
    return None


def is_param(term, name: str, func=None) -> bool:
    return term is not None and term[0] == "param" and term[2] == name and (func is None or term[1] == func)


def self_attr(term, *names: str) -> bool:
    """Determine if a term is self.a.b..."""
    for name in reversed(names):
        if term is None or term[0] != "attr" or term[2] != name:
            return False
        term = term[1]
    return term is not None and term[0] == "self"


def base_elem(term, attr: str) -> bool:
    """Determine if a term is drawn from a container called 'attr' on self."""
    return any(self_attr(c, attr) for c in T.element_of(term))


def where_of(func) -> str:
    return func.where


def each(ctx, rule, construct, paths, pred, msg, func):
    """One obligation: a predicate holds on each path."""
    for path in paths:
        text = pred(path)
        if text is not None and text is not True:
            ctx.ob(rule, construct, False, f"{msg}: {text}" if text else msg, func.where, path.show())
            return False
    return ctx.ob(rule, construct, True)


def concrete(p, name: str):
    """A class and all of its subclasses."""
    return list({c.qual: c for c in [p.need_cls(name), *p.subclasses(name)]}.values())


def call_names(p, func, cls=None, depth: int = 3, seen=None) -> set:
    """Names of the attributes/functions called from a function's body,
    following calls of its own methods."""
    import ast

    seen = set() if seen is None else seen
    if func is None or func.qual in seen:
        return set()
    seen.add(func.qual)
    out = set()
    for node in ast.walk(func.node):
        if isinstance(node, ast.Call):
            if isinstance(node.func, ast.Attribute):
                out.add(node.func.attr)
                if depth and isinstance(node.func.value, ast.Name) and node.func.value.id in ("self", "cls") and (cls or func.cls):
                    out |= call_names(p, p.lookup(cls or func.cls, node.func.attr), cls, depth - 1, seen)
            elif isinstance(node.func, ast.Name):
                out.add(node.func.id)
                if depth:
                    target = p.func(func.module.resolve_dotted(node.func.id))
                    if target is not None:
                        out |= call_names(p, target, None, depth - 1, seen)
    return out


def truth_self(st, *names) -> object:
    """The known truth of self.a.b on a path."""
    for atom, pol in facts_of(st):
        if self_attr(atom, *names):
            return pol
    return None


def none_param(st, name: str):
    """Whether a parameter is known to be None on a path."""
    out = None
    for atom, pol in facts_of(st):
        if atom[0] == "isnone" and is_param(atom[1], name):
            return pol
        if is_param(atom, name) and pol:
            out = False
    return out


def const_is(term, value) -> bool:
    return term is not None and term[0] == "const" and term[2] is value or (term is not None and term[0] == "const" and type(term[2]) is type(value) and term[2] == value)


def current(st, base, attr: str):
    """The current value of an attribute on a path."""
    return st.heap.get((T.strip(base), attr), ("attr", base, attr, st.epoch))


def current_truth(st, base, attr: str):
    """The known truth of an attribute's current value."""
    term = current(st, base, attr)
    if term[0] == "const":
        return bool(term[2])
    if st.known(term, True):
        return True
    if st.known(term, False):
        return False
    return None


def current_none(st, base, attr: str):
    """Whether an attribute's current value is known to be None."""
    term = current(st, base, attr)
    if term[0] == "const":
        return term[2] is None
    if term[0] in ("new", "list", "tuple", "dict", "fstr"):
        return False
    if (("isnone", term), True) in st.facts:
        return True
    if (("isnone", term), False) in st.facts or st.known(term, True):
        return False
    return None

"""
Value-number terms: hashable tuples naming the value an expression denotes.

Two expressions with the same term denote the same value (value numbering), so
rules compare terms instead of source text.
"""

from __future__ import annotations


def const(value):
    return ("const", type(value).__name__, value)


NONE = ("const", "NoneType", None)
TRUE = ("const", "bool", True)
FALSE = ("const", "bool", False)


def is_const(term) -> bool:
    return term[0] == "const"


def strip(term):
    """Remove epochs and sites so that terms compare structurally."""
    if not isinstance(term, tuple) or not term:
        return term
    tag = term[0]
    if tag in ("attr", "sub"):
        return (tag, strip(term[1]), strip(term[2]), ())
    if tag == "call":
        return (
            "call",
            (),
            term[2],
            strip(term[3]) if term[3] else None,
            tuple(strip(x) for x in term[4]),
            tuple((k, strip(v)) for k, v in term[5]),
        )
    if tag == "iter":
        return ("iter", strip(term[1]), ())
    if tag == "new":
        return (
            "new",
            (),
            term[2],
            tuple(strip(x) for x in term[3]),
            tuple((k, strip(v)) for k, v in term[4]),
        )
    if tag == "phi":
        return ("phi", (), term[2])
    if tag in ("list", "set", "dict") and len(term) == 3:
        return (tag, strip(term[1]), ())
    if tag in ("coro", "gen"):
        return (tag, term[1], strip(term[2]) if term[2] else None, tuple(strip(x) for x in term[3]), tuple((k, strip(v)) for k, v in term[4]), ())
    if tag in ("const", "param", "self", "ext", "func", "class", "closure"):
        return term
    return tuple(strip(x) if isinstance(x, tuple) else x for x in term)


def path(term) -> str:
    """A readable access path for a term."""
    if not isinstance(term, tuple) or not term:
        return repr(term)
    tag = term[0]
    if tag == "self":
        return "self"
    if tag == "param":
        return term[2]
    if tag == "const":
        return repr(term[2])
    if tag == "attr":
        return f"{path(term[1])}.{term[2]}"
    if tag == "iter":
        return f"{path(term[1])}[*]"
    if tag == "sub":
        return f"{path(term[1])}[{path(term[2])}]"
    if tag == "call":
        name = term[2]
        args = ", ".join([path(x) for x in term[4]] + [f"{k}={path(v)}" for k, v in term[5]])
        if term[3] is not None:
            return f"{path(term[3])}.{name.split('.')[-1]}({args})"
        return f"{name}({args})"
    if tag == "new":
        args = ", ".join([path(x) for x in term[3]] + [f"{k}={path(v)}" for k, v in term[4]])
        return f"{term[2].split('.')[-1]}({args})"
    if tag in ("ext", "func", "class"):
        return term[1]
    if tag == "bound":
        return f"{path(term[1])}.{term[2].split('.')[-1]}"
    if tag == "bin":
        return f"({path(term[2])} {term[1]} {path(term[3])})"
    if tag == "cmp":
        return f"({path(term[2])} {term[1]} {path(term[3])})"
    if tag == "not":
        return f"not {path(term[1])}"
    if tag == "isnone":
        return f"{path(term[1])} is None"
    if tag in ("tuple", "list", "set"):
        return "(" + ", ".join(path(x) for x in term[1]) + ")"
    if tag == "fstr":
        return "f'" + "".join(x[2] if x[0] == "const" else "{" + path(x) + "}" for x in term[1]) + "'"
    if tag == "phi":
        return f"<{term[2]}>"
    if tag == "await":
        return path(term[1])
    if tag == "unpack":
        return f"{path(term[1])}<{term[2]}>"
    if tag == "closure":
        return f"<closure {term[1].split('.')[-1]}>"
    if tag in ("coro", "gen"):
        return f"{term[1].split('.')[-1]}(...)"
    if tag == "enter":
        return f"enter({path(term[1])})"
    if tag == "bool":
        return f"bool({path(term[1])})"
    if tag == "isinstance":
        return f"isinstance({path(term[1])}, {path(term[2])})"
    if tag == "in":
        return f"({path(term[1])} in {path(term[2])})"
    return "<" + str(tag) + ">"


STRIP_CALLS = {"list", "tuple", "set", "sorted", "reversed", "iter", "enumerate", "copy.copy", "frozenset"}
STRIP_METHODS = {"values", "items", "copy", "keys"}


def containers(term) -> list:
    """Get the underlying containers an iterable term draws from."""
    if term[0] == "call":
        if term[3] is None and term[2] in STRIP_CALLS and term[4]:
            return containers(term[4][0])
        if term[3] is None and term[2] in ("itertools.chain", "zip"):
            return [c for a in term[4] for c in containers(a)]
        if term[3] is not None and term[2].split(".")[-1] in STRIP_METHODS:
            return containers(term[3])
    if term[0] == "bin" and term[1] in ("+", "|"):
        return containers(term[2]) + containers(term[3])
    if term[0] in ("list", "tuple", "set"):
        out = []
        for item in term[1]:
            if item[0] == "star":
                out.extend(containers(item[1]))
            else:
                out.append(item)
        return out
    if term[0] == "comp":
        return containers(term[3])
    return [term]


def element_of(term):
    """If a term denotes an element of a container, get the containers."""
    if term[0] == "iter":
        return containers(term[1])
    if term[0] == "unpack":
        return element_of(term[1])
    return []


def walk(term):
    """Iterate over all sub-terms."""
    stack = [term]
    while stack:
        cur = stack.pop()
        if isinstance(cur, tuple):
            if cur and isinstance(cur[0], str):
                yield cur
            stack.extend(x for x in cur if isinstance(x, tuple))


def contains(term, pred) -> bool:
    return any(pred(t) for t in walk(term))


def mentions(term, sub) -> bool:
    """Determine if a term structurally contains another."""
    target = strip(sub)
    return any(t == target for t in walk(strip(term)))

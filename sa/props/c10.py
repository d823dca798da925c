"""C10: Every bit of a primitive belongs to at most one field, and a field only touches its own bits."""

from __future__ import annotations

import ast

from sa import terms as T
from sa.props.c06 import arg, attr_of, each_return, is_self, opaque_names, own
from sa.props.common import at_home, current_truth, facts_of, is_param, none_param

LEVEL = "proof"
EXPLANATION = (
    "Allocation of bits is proven over all paths: what's removed from the available bits is exactly the claimed range, each bit of which is known to be available, and every field or padding that's stored "
    "was created at a claimed position with the claimed width. Mask arithmetic of reads and writes is compared symbolically."
)

BASE = "runtimepy.primitives.field.BitFieldBase"
FIELD = "runtimepy.primitives.field.BitField"
FLAG = "runtimepy.primitives.field.BitFlag"
FIELDS = "runtimepy.primitives.field.fields.BitFields"
MANAGER = "runtimepy.primitives.field.manager.base.BitFieldsManagerBase"

COMMUTE = ("+", "*", "&", "|", "^")


def match(term, pat) -> bool:
    """Match a term, up to the order of operands."""
    if term is None:
        return False
    if callable(pat):
        return pat(term)
    if isinstance(pat, int):
        return term == ("const", "int", pat)
    if pat[0] == "bin" and term[0] == "bin" and term[1] == pat[1]:
        if match(term[2], pat[2]) and match(term[3], pat[3]):
            return True
        return pat[1] in COMMUTE and match(term[2], pat[3]) and match(term[3], pat[2])
    if pat[0] == "un" and term[0] == "un" and term[1] == pat[1]:
        return match(term[2], pat[2])
    return False


def add(a, b):
    return ("bin", "+", a, b)


def run(ctx) -> None:
    R1 = ctx.rule("R1", "Claiming bits takes exactly the requested ones, each of which has to be available, unless the fields are finalized.")
    R2 = ctx.rule("R2", "Every field and padding that's stored was created at a claimed position, with the claimed width.")
    R3 = ctx.rule("R3", "A field is stored by its own name, which isn't taken, and its own position.")
    R4 = ctx.rule("R4", "Reading and writing a field affects its own bits only.")
    R5 = ctx.rule("R5", "A field lies inside of an integer primitive.")
    R6 = ctx.rule("R6", "Allocation state isn't changed by anything else, and finalization is final.")
    R7 = ctx.rule("R7", "Managed fields are finalized, and looked up by the name they were registered with.")
    R8 = ctx.rule("R8", "Fields are found by their name and identifier, and only them.")
    claims(ctx, R1)
    stored(ctx, R2)
    by_name(ctx, R3)
    masks(ctx, R4)
    bounds(ctx, R5)
    writers(ctx, R6)
    manager(ctx, R7)
    lookups(ctx, R8)


def claims(ctx, rule) -> None:
    func = ctx.anchor_func(rule, f"{FIELDS}._claim_bits")
    if func is None:
        return

    def available(term) -> bool:
        return own(term, "bits_available")

    def is_in(atom) -> bool:
        return atom[0] == "in" and available(T.strip(atom[2]))

    def label(e):
        if e.kind == "loop" and e.term is not None:
            return ("loop", T.strip(e.term))
        if e.kind == "iterend":
            ok = any(pol and is_in(atom) and T.contains(T.strip(atom[1]), lambda t: t[0] == "iter" and t[1] == T.strip(e.term)) for atom, pol in e.st.facts)
            return ("checked", T.strip(e.term), ok)
        if e.kind == "store" and e.ev.kind == "attr" and e.ev.name in ("bits_available", "curr_index") and is_self(T.strip(e.ev.base)):
            return ("set", e.ev.name, T.strip(e.ev.value), current_truth(e.st, e.frame.self_term, "_finalized"))
        if e.kind == "call" and e.ev.recv is not None and available(T.strip(e.ev.recv)) and e.ev.attr in ("difference_update", "discard", "remove", "add", "update", "clear", "pop"):
            return ("taken", e.ev.attr, T.strip(e.ev.args[0]) if e.ev.args else None, current_truth(e.st, e.frame.self_term, "_finalized"))
        return None

    tr = ctx.trace(func, label, ctx.p.cls(FIELDS), cap=3)
    bad = {}
    shapes = 0
    for path in tr.ret:

        def fail(what, msg):
            bad.setdefault(what, (msg, path))

        index = T.strip(path.val)
        given = none_param(path.st, "index")
        if is_param(index, "index"):
            if given is True:
                fail("index", "no position is determined")
        elif own(index, "curr_index"):
            if given is not True:
                fail("index", "the given position isn't used")
        else:
            fail("index", f"the bits start at {T.path(index)}")
        if any(x[3] is not False for x in path.get("set") + path.get("taken")):
            fail("finalized", "bits are claimed although the fields may be finalized")
        taken = None
        sets = [x for x in path.get("set") if x[1] == "bits_available"]
        calls = path.get("taken")
        if len(sets) + len(calls) == 1:
            if sets:
                val = sets[0][2]
                if val[0] == "bin" and val[1] == "-" and available(val[2]):
                    taken = val[3]
                elif val[0] == "call" and val[2] == "difference" and available(val[3]):
                    taken = val[4][0]
            elif calls[0][1] == "difference_update":
                taken = calls[0][2]
        removed = [x for x in calls if x[1] in ("remove", "discard")]
        if taken is None and removed and len(removed) == len(calls) and not sets:
            # Bits are removed one by one.
            taken = removed[0][2]
            source = next((x[1] for x in T.walk(taken) if x[0] == "iter"), None)
            taken = ("call", (), "set", None, (("comp", "SetComp", (taken,), source),), ()) if source is not None and taken[0] == "bin" else source
        if taken is None:
            if not any(x[0] == "loop" for x in path.labels) or sets or calls:
                fail("taken", "the claimed bits aren't taken once")
            continue
        kind = shape(taken, index)
        if kind is False:
            fail("taken", f"{T.path(taken)} is taken instead of the claimed bits")
        shapes += kind is True
        # All of these bits are available.
        loops = [x for x in path.get("loop") if same_bits(x[1], taken)]
        checks = [x for x in path.get("checked") if same_bits(x[1], taken)]
        known = any(
            (pol is False and atom[0] == "cmp" and atom[1] == "<" and available(T.strip(atom[2])) and T.strip(atom[3]) == taken)
            or (pol is True and atom[0] == "call" and atom[2] in ("issubset", "issuperset", "all") and T.contains(T.strip(atom), available))
            for atom, pol in facts_of(path.st)
        )
        if not known:
            first = min([path.labels.index(x) for x in sets + calls])
            if not loops or not all(x[2] for x in checks) or not removed and any(path.labels.index(x) > first for x in loops):
                fail("available", "bits that aren't known to be available are taken")
        # The next position.
        nexts = [x[2] for x in path.get("set") if x[1] == "curr_index"]
        below = [pol for atom, pol in facts_of(path.st) if atom[0] == "cmp" and atom[1] == "<" and T.strip(atom[2]) == index and own(T.strip(atom[3]), "curr_index")]
        end = lambda t: match(t, add(lambda x: x == index, lambda x: is_param(x, "width")))  # noqa: E731
        if not nexts:
            if True not in below:
                fail("next", "the next position isn't after the claimed bits")
        elif len(nexts) != 1:
            fail("next", "the next position is changed twice")
        elif nexts[0][0] == "call" and nexts[0][2] == "max":
            if not any(end(x) for x in nexts[0][4]) or not any(own(x, "curr_index") for x in nexts[0][4]):
                fail("next", f"the next position is {T.path(nexts[0])}")
        elif not end(nexts[0]):
            fail("next", f"the next position is {T.path(nexts[0])}")
        elif True in below:
            fail("next", "the next position becomes one that may be taken")
    for what in ("index", "finalized", "taken", "available", "next"):
        msg, path = bad.get(what, ("", None))
        ctx.ob(rule, f"claim/{what}", path is None, msg, func.where, path.show() if path is not None else ())
    ctx.floor(rule, "paths that claim bits", shapes, 2)


def same_bits(term, taken) -> bool:
    return term == taken or T.contains(taken, lambda t: t == term) and term[0] == "comp" or T.contains(term, lambda t: t == taken)


def shape(term, index):
    """Whether a set consists of the claimed bits (None: it's empty)."""
    while term[0] == "call" and term[2] in ("set", "frozenset", "list", "tuple") and len(term[4]) == 1:
        term = term[4][0]
    if term[0] == "call" and term[2] == "range":
        args = term[4]
        return len(args) == 2 and args[0] == index and match(args[1], add(lambda t: t == index, lambda t: is_param(t, "width")))
    if term[0] == "comp":
        elems, source = term[2], term[3]
        if not (source is not None and source[0] == "call" and source[2] == "range"):
            return False
        if len(source[4]) == 1 and is_param(source[4][0], "width"):
            if not elems:
                return None
            return all(match(x, add(lambda t: t == index, lambda t: t[0] == "iter")) for x in elems)
        if len(source[4]) == 2 and source[4][0] == index and match(source[4][1], add(lambda t: t == index, lambda t: is_param(t, "width"))):
            return all(x[0] == "iter" for x in elems) if elems else None
    return False


def stored(ctx, rule) -> None:
    """Fields are created at claimed positions."""
    p = ctx.p
    count = 0
    for func in sorted(p.all_functions(), key=lambda f: f.qual):
        if at_home(p, func, "claim_field", "_claim_bits"):
            continue
        calls = any(isinstance(n, ast.Attribute) and n.attr == "claim_field" for n in ast.walk(func.node))
        stores = any(isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Attribute) and n.value.attr == "by_index" for n in ast.walk(func.node))
        if not calls and not stores:
            continue
        if func.cls is None or not any(c.qual in (FIELDS, MANAGER) for c in p.mro_classes(func.cls)):
            if stores:
                ctx.ob(rule, f"store/{func.qual}", False, "bit-fields are stored without being claimed", func.where)
            continue

        def label(e):
            if e.kind == "call" and e.ev.attr == "_claim_bits":
                width = e.ev.args[0] if e.ev.args else e.ev.kwargs.get("width")
                index = e.ev.args[1] if len(e.ev.args) > 1 else e.ev.kwargs.get("index")
                return ("claim", T.strip(e.ev.recv), T.strip(width), T.strip(index) if index is not None else None)
            if e.kind == "call" and e.ev.attr == "claim_field":
                return ("field", T.strip(e.ev.recv), T.strip(e.ev.args[0]))
            if e.kind == "store" and e.ev.kind == "sub" and attr_of(T.strip(e.ev.base), "by_index"):
                return ("pad", T.strip(e.ev.base)[1], T.strip(e.ev.name), T.strip(e.ev.value))
            return None

        tr = ctx.trace(func, label, func.cls, cap=2, opaque=opaque_names("claim_field", "_claim_bits", "__call__"))
        bad = None
        for path in tr.ret:
            for i, item in enumerate(path.labels):
                if item[0] == "claim":
                    if is_param_like(func, "index") and not (item[3] is not None and (is_param(item[3], "index") or item[3][0] == "attr")):
                        bad = bad or ("the requested position isn't claimed", path)
                    continue
                count += 1
                before = [x for x in path.labels[:i] if x[0] == "claim"]
                msg = judge(item, before)
                if msg and bad is None:
                    bad = (msg, path)
            if func.name in ("field", "flag", "pad") and not any(x[0] in ("field", "pad") for x in path.labels):
                bad = bad or ("nothing is stored for claimed bits", path)
            if func.name == "pad" and not is_claim(T.strip(path.val)):
                bad = bad or ("the position of the padding isn't returned", path)
        ctx.ob(rule, f"store/{func.qual}", bad is None and bool(tr.ret), bad[0] if bad else "never returns", func.where, bad[1].show() if bad else ())
    ctx.floor(rule, "stored fields", count, 4)


def is_param_like(func, name) -> bool:
    return name in [a.arg for a in func.node.args.args]


def is_claim(term) -> bool:
    return term is not None and term[0] == "call" and term[2].split(".")[-1] == "_claim_bits"


def judge(item, before) -> str | None:
    kind, owner = item[0], item[1]
    if kind == "pad":
        if not is_claim(item[2]):
            return "padding is stored at a position that wasn't claimed"
        width = arg(item[2], 0, "width")
        if item[3][0] != "tuple" or item[3][1][0] != width:
            return "padding is stored with another width than the claimed one"
        return None
    term = item[2]
    if term[0] == "new":
        args = list(term[3] if len(term) > 3 and isinstance(term[3], tuple) else ())
        claim = next((x for x in args if is_claim(x)), None)
        kwargs = dict(term[4]) if len(term) > 4 and isinstance(term[4], tuple) else {}
        if claim is None:
            claim = kwargs.get("index")
        if claim is None or not is_claim(claim):
            return "a field is created at a position that wasn't claimed"
        if claim[3] != owner:
            return "a field's position was claimed from another primitive"
        width = arg(claim, 0, "width")
        if term[2].endswith("BitFlag"):
            if width != ("const", "int", 1):
                return "a flag takes another number of bits than one"
            return None
        got = kwargs.get("width") or (args[3] if len(args) > 3 else None)
        if got != width:
            return "a field is wider than the claimed bits"
        if not (own(args[1], "raw") if len(args) > 1 else own(kwargs.get("raw") or ("?",), "raw")):
            return "a field refers to another primitive than the one its bits were claimed from"
        return None
    # A field that was created elsewhere.
    for claim in before:
        if claim[1] == owner and claim[2] == ("attr", term, "width", ()) and claim[3] == ("attr", term, "index", ()):
            return None
    return "a field is stored without claiming its bits"


def by_name(ctx, rule) -> None:
    func = ctx.anchor_func(rule, f"{FIELDS}.claim_field")
    if func is None:
        return

    def label(e):
        if e.kind == "store" and e.ev.kind == "sub" and attr_of(T.strip(e.ev.base), "fields", "by_index"):
            key = T.strip(e.ev.name)
            free = any(pol is False and atom[0] == "in" and T.strip(atom[1]) == ("attr", ("param", func.qual, "field"), "name", ()) and own(T.strip(atom[2]), "fields") for atom, pol in e.st.facts)
            return ("set", T.strip(e.ev.base)[2], key, T.strip(e.ev.value), free)
        return None

    def pred(path):
        got = {x[1]: x for x in path.get("set")}
        if len(path.get("set")) != 2 or set(got) != {"fields", "by_index"}:
            return "a field isn't stored once by name and once by position"
        for name, attr in (("fields", "name"), ("by_index", "index")):
            key, value = got[name][2], got[name][3]
            if not is_param(value, "field") or key != ("attr", value, attr, ()):
                return f"a field isn't stored by its {attr}"
        if not all(x[4] for x in got.values()):
            return "a field replaces another one of the same name"
        if not is_param(T.strip(path.val), "field"):
            return "the stored field isn't returned"
        return None

    each_return(ctx, rule, "claim_field", f"{FIELDS}.claim_field", FIELDS, pred, label=label)

    # What's requested is what's created.
    for name, cls in (("flag", FLAG), ("field", FIELD)):

        def created(path):
            news = [x for x in path.get("new")]
            if not news:
                return "no field is created"
            for item in news:
                values = item[1]
                for attr in ("name",) + (("width",) if name == "field" else ()):
                    if not is_param(values.get(attr, ("?",)), attr):
                        return f"the field's {attr} isn't the requested one"
            return None

        def label2(e, cls=cls):
            if e.kind == "call" and e.ev.attr == "claim_field":
                term = T.strip(e.ev.args[0])
                init = ctx.p.lookup(ctx.p.cls(cls), "__init__")
                names = [a.arg for a in init.node.args.args][1:] if init is not None else []
                values = {}
                if term[0] == "new":
                    values.update(zip(names, term[3]))
                    if len(term) > 4 and isinstance(term[4], tuple):
                        values.update({k: v for k, v in term[4] if isinstance(k, str)})
                return [Box(("new", Values(values)))]
            return None

        each_return(ctx, rule, f"{name}/requested", f"{FIELDS}.{name}", FIELDS, created, label=label2, opaque=("claim_field", "_claim_bits"))

    # Lookups.
    def lookup(path):
        val = T.strip(path.val)
        text = any(pol and atom[0] == "isinstance" and is_param(atom[1], "key") for atom, pol in facts_of(path.st))
        if text:
            ok = val[0] == "call" and val[2] == "get" and own(val[3], "fields") and is_param(val[4][0], "key") or val[0] == "sub" and own(val[1], "fields") or val == ("const", "None", None) or val[0] == "const"
        else:
            ok = val[0] == "call" and val[2] == "get" and own(val[3], "by_index") and is_param(val[4][0], "key") or val[0] == "sub" and own(val[1], "by_index") or val[0] == "const"
        return None if ok else f"{T.path(val)} is found"

    each_return(ctx, rule, "get_field", f"{FIELDS}.get_field", FIELDS, lookup)


class Values(dict):
    """A hashable dictionary."""

    def __hash__(self):
        return hash(tuple(sorted((k, str(v)) for k, v in self.items())))


def Box(x):
    return x


def masks(ctx, rule) -> None:
    def width_of(t):
        return is_param(t, "width") or own(t, "width")

    def index_of(t):
        return is_param(t, "index") or own(t, "index")

    full = [("bin", "-", ("bin", "**", 2, width_of), 1), ("bin", "-", ("bin", "<<", 1, width_of), 1)]

    def label(e):
        if e.kind == "store" and e.ev.kind in ("attr", "prop") and is_self(T.strip(e.ev.base)):
            return ("set", e.ev.name, T.strip(e.ev.value))
        if e.kind == "store" and e.ev.kind in ("attr", "prop") and e.ev.name == "value":
            return ("value", T.strip(e.ev.base), T.strip(e.ev.value))
        if e.kind == "call" and e.ev.attr == "set_value":
            return ("value", T.strip(e.ev.recv), T.strip(e.ev.args[0]))
        return None

    shifted = {}

    def init(path):
        got = {x[1]: x[2] for x in path.get("set")}
        for name in ("raw", "index", "width"):
            if not is_param(got.get(name, ("?",)), name):
                return f"the {name} isn't the given one"
        if "mask" not in got or not any(match(got["mask"], x) for x in full):
            return "the mask doesn't have as many bits as the field is wide"
        want = lambda t: any(match(t, x) for x in full) or own(t, "mask")  # noqa: E731
        if "shifted_mask" not in got or not match(got["shifted_mask"], ("bin", "<<", want, index_of)):
            return "the shifted mask isn't at the position of the field"
        shifted["ok"] = True
        return None

    each_return(ctx, rule, "masks", f"{BASE}.__init__", BASE, init, label=label)

    def raw_value(t):
        return own(t, "raw", "value") or own(t, "raw", "raw", "value")

    def own_mask(t):
        return own(t, "mask")

    def shifted_mask(t):
        return own(t, "shifted_mask") or match(t, ("bin", "<<", own_mask, index_of))

    def masked(t):
        return match(t, ("bin", "&", lambda x: is_param(x, "val"), own_mask))

    def call(path):
        none = none_param(path.st, "val")
        writes = path.get("value")
        val = T.strip(path.val)
        if none is True:
            if writes:
                return "reading a field changes its primitive"
            read = [
                ("bin", ">>", ("bin", "&", raw_value, shifted_mask), index_of),
                ("bin", "&", ("bin", ">>", raw_value, index_of), own_mask),
            ]
            return None if any(match(val, x) for x in read) else f"{T.path(val)} is read"
        if none is None:
            return "a value of zero isn't told from no value"
        if len(set(writes)) != 1 or not own(writes[0][1], "raw"):
            return "a field that's written doesn't change its primitive once"
        place = ("bin", "<<", masked, index_of)
        kept = ("bin", "&", raw_value, ("un", "Invert", shifted_mask))
        if not any(match(writes[0][2], ("bin", op, kept, place)) for op in ("|", "+", "^")):
            return f"{T.path(writes[0][2])} is written"
        if not masked(val) and not any(match(val, x) for x in (("bin", ">>", ("bin", "&", raw_value, shifted_mask), index_of),)):
            return "the value that's written isn't returned"
        return None

    each_return(ctx, rule, "access", f"{BASE}.__call__", BASE, call, label=label)

    def inverted(path):
        val = T.strip(path.val)

        def reads(t):
            return t[0] == "call" and t[2].endswith(".__call__") and is_self(t[3]) and not t[4]

        if not (val[0] == "call" and val[2].endswith(".__call__") and is_self(val[3]) and len(val[4]) == 1):
            return f"{T.path(val)} is returned"
        new = val[4][0]
        if not (match(new, ("un", "Invert", reads)) or match(new, ("bin", "^", reads, own_mask))):
            return "the field isn't set to its inverted value"
        return None

    each_return(ctx, rule, "invert", f"{BASE}.invert", BASE, inverted, opaque=("__call__",))

    # Flags.
    for name, want in (("clear", lambda t: t == ("const", "int", 0)), ("set", lambda t: is_param(t, "val") or t[0] == "call" and t[2] == "int" and is_param(t[4][0], "val"))):

        def label2(e):
            if e.kind == "call" and e.ev.func is not None and e.ev.func.qual == f"{BASE}.__call__":
                value = e.ev.args[0] if e.ev.args else e.ev.kwargs.get("val")
                return ("call", T.strip(value) if value is not None else None)
            return None

        def pred(path, want=want):
            calls = path.get("call")
            return None if len(calls) == 1 and calls[0][1] is not None and want(calls[0][1]) else "the flag isn't set to the value"

        each_return(ctx, rule, f"flag {name}", f"{FLAG}.{name}", FLAG, pred, label=label2, opaque=("__call__",))


def bounds(ctx, rule) -> None:
    def bits(t):
        return t[0] == "attr" and t[2] == "bits" and t[1][0] == "attr" and t[1][2] == "kind" and (is_param(t[1][1], "raw") or own(t[1][1], "raw"))

    def end(t):
        return match(t, add(lambda x: is_param(x, "index") or own(x, "index"), lambda x: is_param(x, "width") or own(x, "width")))

    def pred(path):
        ok = integer = False
        for atom, pol in facts_of(path.st):
            atom = T.strip(atom)
            if atom[0] == "cmp" and atom[1] == "<" and pol is False and bits(atom[2]) and end(atom[3]):
                ok = True
            if atom[0] == "attr" and atom[2] == "is_integer" and pol:
                integer = True
        if not ok:
            return "a field can extend past the end of its primitive"
        if not integer:
            return "a field can be part of something that isn't an integer"
        return None

    each_return(ctx, rule, "inside", f"{FIELD}.__init__", FIELD, pred, opaque=("validate_name",))

    def calls(e):
        if e.kind == "call" and e.ev.func is not None and e.ev.func.name == "__init__" and e.ev.func.cls is not None and e.ev.func.cls.qual in (FIELD, BASE):
            return ("init", e.ev.func.cls.qual, tuple(T.strip(x) for x in e.ev.args), tuple(sorted((k, T.strip(v)) for k, v in e.ev.kwargs.items())))
        return None

    def flag(path):
        items = [x for x in path.get("init") if x[1] == FIELD]
        if len(items) != 1:
            return "a flag isn't initialized as a field"
        names = ("name", "raw", "index", "width", "enum", "commandable", "description")
        values = dict(zip(names, items[0][2]))
        values.update(dict(items[0][3]))
        if values.get("width") != ("const", "int", 1):
            return "a flag isn't one bit wide"
        for name in names:
            if name != "width" and not is_param(values.get(name, ("?",)), name):
                return f"the {name} of a flag is lost"
        return None

    each_return(ctx, rule, "flag", f"{FLAG}.__init__", FLAG, flag, label=calls, opaque=("validate_name",))

    def field(path):
        items = [x for x in path.get("init") if x[1] == BASE]
        if len(items) != 1:
            return "a field's position isn't initialized"
        names = ("raw", "index", "width", "commandable", "description")
        values = dict(zip(names, items[0][2]))
        values.update(dict(items[0][3]))
        for name in names:
            if not is_param(values.get(name, ("?",)), name):
                return f"the {name} of a field is lost"
        return None

    each_return(ctx, rule, "field", f"{FIELD}.__init__", FIELD, field, label=calls, opaque=("validate_name",))


def writers(ctx, rule) -> None:
    p = ctx.p
    names = ("bits_available", "curr_index", "by_index")
    allowed = {"bits_available": {"init", "_claim_bits"}, "curr_index": {"init", "_claim_bits"}, "by_index": {"init", "pad", "claim_field"}, "fields": {"init", "claim_field"}}
    count = 0
    cls = ctx.anchor_cls(rule, FIELDS)
    if cls is None:
        return
    for func in p.all_functions():
        inside = func.cls is not None and any(c.qual == FIELDS for c in p.mro_classes(func.cls))
        for node in ast.walk(func.node):
            target = None
            if isinstance(node, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
                targets = node.targets if isinstance(node, (ast.Assign, ast.Delete)) else [node.target]
                for item in targets:
                    base = item.value if isinstance(item, ast.Subscript) else item
                    if isinstance(base, ast.Attribute) and (base.attr in names or inside and base.attr == "fields"):
                        target = base.attr
            elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ("add", "update", "clear", "pop", "remove", "discard", "setdefault", "difference_update", "popitem"):
                base = node.func.value
                if isinstance(base, ast.Attribute) and (base.attr in names or inside and base.attr == "fields"):
                    target = base.attr
            if target:
                count += 1
                ok = inside and at_home(p, func, *allowed[target])
                ctx.ob(rule, f"writer/{target}/{func.qual}", ok, f"{target} is changed outside of allocation", f"{func.module.rel}:{node.lineno}")
    ctx.floor(rule, "changes of allocation state", count, 7)

    # All bits are available initially.
    def label(e):
        if e.kind == "store" and e.ev.kind == "attr" and is_self(T.strip(e.ev.base)):
            return ("set", e.ev.name, T.strip(e.ev.value))
        return None

    tr = ctx.trace(p.lookup(cls, "init"), label, cls, cap=1, opaque=opaque_names("flag", "field", "pad", "_claim_bits"))
    bad = None
    for path in tr.ret:
        first = {}
        for item in path.get("set"):
            first.setdefault(item[1], item[2])
        val = first.get("bits_available", ("?",))
        while val[0] == "call" and val[2] == "set":
            val = val[4][0]
        if not (val[0] == "call" and val[2] == "range" and len(val[4]) == 1 and val[4][0][0] == "attr" and val[4][0][2] == "bits"):
            bad = bad or ("not all bits of the primitive are available initially", path)
        if first.get("curr_index") != ("const", "int", 0):
            bad = bad or ("the first position isn't zero", path)
    ctx.ob(rule, "initial", bad is None and bool(tr.ret), bad[0] if bad else "", tr.func.where, bad[1].show() if bad else ())

    # Finalization.
    def final(path):
        vals = [x[2] for x in path.get("set") if x[1] == "_finalized"]
        return None if vals and all(x == ("const", "bool", True) for x in vals) else "the fields aren't finalized"

    each_return(ctx, rule, "finalize", f"{FIELDS}.finalize", FIELDS, final, label=label)
    for func in p.all_functions():
        for node in ast.walk(func.node):
            if isinstance(node, (ast.Assign, ast.AnnAssign)):
                targets = node.targets if isinstance(node, ast.Assign) else [node.target]
                for item in targets:
                    if isinstance(item, ast.Attribute) and item.attr == "_finalized" and node.value is not None:
                        if not (func.cls is not None and any(c.qual == FIELDS for c in p.mro_classes(func.cls))):
                            continue
                        ok = at_home(p, func, "init", "__init__") or isinstance(node.value, ast.Constant) and node.value.value is True
                        ctx.ob(rule, f"final/{func.qual}", ok, "finalized fields are opened again", f"{func.module.rel}:{node.lineno}")


def manager(ctx, rule) -> None:
    def label(e):
        if e.kind == "call" and e.ev.attr == "finalize" and is_param(T.strip(e.ev.recv), "fields"):
            return ("final",)
        if e.kind == "call" and e.ev.attr == "append" and e.ev.recv is not None and attr_of(T.strip(e.ev.recv), "fields"):
            return ("append", T.strip(e.ev.args[0]))
        if e.kind == "call" and e.ev.attr == "register_name":
            return ("name", T.strip(e.ev.args[0]))
        if e.kind == "call" and e.ev.name == "len" and e.ev.args and own(T.strip(e.ev.args[0]), "fields"):
            return ("len",)
        if e.kind == "store" and e.ev.kind == "sub" and attr_of(T.strip(e.ev.base), "lookup", "enum_lookup"):
            base, key = T.strip(e.ev.base), T.strip(e.ev.name)
            free = any(pol is False and atom[0] == "in" and T.strip(atom[1]) == key and own(T.strip(atom[2]), "lookup") for atom, pol in e.st.facts)
            return (base[2], key, T.strip(e.ev.value), free)
        if e.kind == "iterend":
            return [("end",)]
        return None

    def added(path):
        if not path.has("final"):
            return "managed fields can still be extended"
        if len(path.get("append")) != 1 or not is_param(path.get("append")[0][1], "fields"):
            return "the fields aren't stored once"
        val = T.strip(path.val)
        ok_index = lambda t: t[0] == "call" and t[2] == "len" and own(t[4][0], "fields") or match(t, ("bin", "-", lambda x: x[0] == "call" and x[2] == "len" and own(x[4][0], "fields"), 1))  # noqa: E731
        if not ok_index(val):
            return f"{T.path(val)} is returned as index"
        if not path.has("len") or (path.index("len") > path.index("append")) != (val[0] == "bin"):
            return "the index isn't the one of the stored fields"
        for i, item in enumerate(path.labels):
            if item[0] == "lookup":
                if item[2] != val and not ok_index(item[2]):
                    return "a name leads to other fields than the ones that contain it"
                if not any(x[0] == "name" and x[1] == item[1] for x in path.labels[:i]):
                    return "a name is used that isn't registered"
            if item[0] == "enum_lookup":
                if not (item[2][0] == "sub" and own(item[2][1], "enums") or item[2][0] == "call" and T.contains(item[2], lambda t: own(t, "enums"))):
                    return "a field's enumeration isn't the registered one"
        if len(path.get("name")) != len(path.get("lookup")) and len(path.get("lookup")) < 2:
            return "a registered name doesn't lead to its fields"
        return None

    tr = each_return(ctx, rule, "add", f"{MANAGER}.add", MANAGER, added, label=label, opaque=("register_name", "finalize"), cap=4)
    if tr is not None:
        hides = any(x[0] == "lookup" and not x[3] for path in tr.ret for x in path.labels)
        ctx.ob(rule, "add/hides", not hides, "a field hides another one of the same name", tr.func.where)
        ctx.ob(rule, "add/names", any(x.has("lookup") for x in tr.ret), "names of fields are never registered", tr.func.where)
        ctx.ob(rule, "add/enums", any(x.has("enum_lookup") for x in tr.ret), "enumerations of fields are never stored", tr.func.where)

    # Access.
    def written(path):
        sets = path.get("write")
        if len(sets) != 1:
            return "the field isn't written once"
        if not (sets[0][1][0] == "call" and sets[0][1][2].endswith(("__getitem__", "get_field")) and is_param(sets[0][1][4][0], "key") or sets[0][1][0] == "sub" and is_param(sets[0][1][2], "key")):
            return f"{T.path(sets[0][1])} is written"
        val = sets[0][2]
        if not T.contains(val, lambda t: is_param(t, "value")):
            return "something else than the value is written"
        return None

    def label2(e):
        if e.kind == "call" and e.ev.attr == "__call__" or e.kind == "call" and e.ev.func is not None and e.ev.func.qual == f"{BASE}.__call__":
            value = e.ev.args[0] if e.ev.args else e.ev.kwargs.get("val")
            if e.ev.recv is None:
                return None
            return ("write" if value is not None else "read", T.strip(e.ev.recv), T.strip(value) if value is not None else None)
        return None

    each_return(ctx, rule, "set", f"{MANAGER}.set", MANAGER, written, label=label2, opaque=("__call__", "__getitem__", "get_int", "parse"))

    def read(path):
        reads = path.get("read")
        if len(reads) != 1 or path.has("write"):
            return "the field isn't read once"
        if not T.contains(reads[0][1], lambda t: is_param(t, "key")):
            return "another field is read"
        val = T.strip(path.val)
        if not T.contains(val, lambda t: t[0] == "call" and t[2].endswith("__call__")):
            return f"{T.path(val)} is returned"
        return None

    each_return(ctx, rule, "get", f"{MANAGER}.get", MANAGER, read, label=label2, opaque=("__call__", "__getitem__", "get_str", "name"))


def lookups(ctx, rule) -> None:
    """Fields are found by their name or position."""

    def called(t, name):
        return t is not None and t[0] == "call" and t[2].split(".")[-1] == name

    def key(t):
        return is_param(t, "key")

    def none(val):
        return val[0] == "const" and val[2] is None

    def entry(t, table):
        if t[0] == "sub":
            return own(t[1], table) and key(t[2])
        return called(t, "get") and own(t[3], table) and key(t[4][0])

    def missing(path, table):
        for atom, pol in facts_of(path.st):
            if atom[0] == "in" and key(atom[1]) and own(atom[2], table):
                return not pol
            if atom[0] == "isnone" and entry(atom[1], table):
                return pol
        return None

    def in_fields(path):
        val = T.strip(path.val)
        text = next((pol for atom, pol in facts_of(path.st) if atom[0] == "isinstance" and key(atom[1])), None)
        if text is None:
            return "names and positions aren't distinguished"
        table = "fields" if text else "by_index"
        if none(val):
            return None if missing(path, table) else "a field isn't found"
        if not entry(val, table):
            return f"{T.path(val)} is returned"
        if not text and not any(pol is False and atom[0] == "isinstance" and entry(atom[1], table) for atom, pol in facts_of(path.st)):
            return "padding is returned as a field"
        return None

    each_return(ctx, rule, "BitFields.get_field", f"{FIELDS}.get_field", FIELDS, in_fields)

    def item(path):
        val = T.strip(path.val)
        if not (called(val, "get_field") and key(val[4][0])):
            return f"{T.path(val)} is returned"
        absent = next((pol for atom, pol in facts_of(path.st) if atom[0] == "isnone" and atom[1] == val), None)
        return None if absent is False else "a missing field is returned as None"

    for qual in (FIELDS, MANAGER):
        each_return(ctx, rule, f"{qual.split('.')[-1]}[]", f"{qual}.__getitem__", qual, item, opaque=("get_field",))

    # The manager translates keys to names first.
    def named(t):
        return called(t, "name") and own(t[3], "registry") and key(t[4][0])

    def name_none(path):
        return next((pol for atom, pol in facts_of(path.st) if atom[0] == "isnone" and named(atom[1])), None)

    def known(path):
        for atom, pol in facts_of(path.st):
            if atom[0] == "in" and named(atom[1]) and own(atom[2], "lookup"):
                return pol
            if atom[0] == "isnone" and called(atom[1], "get") and own(atom[1][3], "lookup") and named(atom[1][4][0]):
                return not pol
        return None

    def get_fields(path):
        val = T.strip(path.val)
        if none(val):
            return None if name_none(path) or known(path) is False else "fields aren't found"
        if not (val[0] == "sub" and own(val[1], "fields")):
            return f"{T.path(val)} is returned"
        index = val[2]
        at = index[0] == "sub" and own(index[1], "lookup") and named(index[2]) or called(index, "get") and own(index[3], "lookup") and named(index[4][0])
        return None if at and known(path) else "other fields than the ones of the name are returned"

    each_return(ctx, rule, "manager.get_fields", f"{MANAGER}.get_fields", MANAGER, get_fields, opaque=("name",))

    def get_field(path):
        val = T.strip(path.val)

        def of_name(t):
            return called(t, "get_fields") and bool(t[4]) and (named(t[4][0]) or key(t[4][0]))

        absent = next((pol for atom, pol in facts_of(path.st) if atom[0] == "isnone" and of_name(atom[1])), None)
        if none(val):
            return None if name_none(path) or absent else "a field isn't found"
        if val[0] == "sub":
            ok = of_name(val[1]) and named(val[2])
        else:
            ok = val[0] == "call" and val[2].split(".")[-1] in ("get_field", "__getitem__") and of_name(val[3]) and named(val[4][0])
        return None if ok and absent is False else f"{T.path(val)} is returned"

    each_return(ctx, rule, "manager.get_field", f"{MANAGER}.get_field", MANAGER, get_field, opaque=("name", "get_fields", "__getitem__"))

    def has_field(path):
        val = T.strip(path.val)
        if val[0] == "in":
            return None if named(val[1]) and own(val[2], "lookup") else "another name is looked up"
        if val[0] != "const":
            return f"{T.path(val)} is returned"
        if val[2]:
            return None if known(path) else "a missing field is reported as known"
        return None if name_none(path) or known(path) is False else "a known field is reported as missing"

    each_return(ctx, rule, "manager.has_field", f"{MANAGER}.has_field", MANAGER, has_field, opaque=("name",))

    def flag(path):
        val = T.strip(path.val)
        if not (val[0] == "sub" and is_self(val[1]) and key(val[2]) or called(val, "__getitem__") and key(val[4][0])):
            return f"{T.path(val)} is returned"
        wide = any(pol and atom[0] == "cmp" and atom[1] == "==" and {("const", "int", 1), ("attr", val, "width", ())} == {atom[2], atom[3]} for atom, pol in facts_of(path.st))
        return None if wide else "a field that isn't a flag is returned"

    each_return(ctx, rule, "manager.get_flag", f"{MANAGER}.get_flag", MANAGER, flag, opaque=("__getitem__",))

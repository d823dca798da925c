"""C06: What's encoded can be decoded: readers mirror writers, and sizes are the number of bytes written."""

from __future__ import annotations

import ast
import re

from sa import terms as T
from sa.props.common import at_home, concrete, current, facts_of, is_param, none_param, self_attr, truth_of

LEVEL = "proof"
EXPLANATION = (
    "Return values and effects of every path of the encoding and decoding methods of primitive types, primitives, arrays, chunks, strings, chains, framers and event headers "
    "are computed symbolically and compared: the same layout, byte order and size on both sides. Array bookkeeping is checked as a co-update invariant over every method that modifies it."
)

TYPE = "runtimepy.primitives.types.base.PrimitiveType"
PRIM = "runtimepy.primitives.base.Primitive"
ARRAY = "runtimepy.primitives.array.PrimitiveArray"
SER = "runtimepy.primitives.serializable.base.Serializable"
FIXED = "runtimepy.primitives.serializable.fixed.FixedChunk"
PREFIXED = "runtimepy.primitives.serializable.prefixed.PrefixedChunk"
STRING = "runtimepy.primitives.string.StringPrimitive"
FRAMER = "runtimepy.primitives.serializable.framer.SerializableFramer"
EVENT = "runtimepy.channel.event.PrimitiveEvent"


def run(ctx) -> None:
    R1 = ctx.rule("R1", "A primitive type encodes and decodes with the same format and byte order, and reads as many bytes as it writes.")
    R2 = ctx.rule("R2", "Every method of a primitive uses the given byte order, else the primitive's, and moves exactly its own value.")
    R3 = ctx.rule("R3", "An array's elements, format, size and index tables are only changed together and describe the same elements.")
    R4 = ctx.rule("R4", "A chain is written, read, measured and copied as its elements in order.")
    R5 = ctx.rule("R5", "A chunk's size is the number of bytes it's encoded to, its prefix counts the bytes that follow.")
    R6 = ctx.rule("R6", "A string's prefix is the number of encoded bytes, and both directions agree on encoding, prefix and byte order.")
    R7 = ctx.rule("R7", "A frame holds whole samples, each exactly as long as the framer accounts for, none lost or repeated.")
    R8 = ctx.rule("R8", "A change event is written as a header with the channel's identifier and update time, followed by the value in the header's byte order.")
    R9 = ctx.rule("R9", "Byte orders map to distinct struct prefixes without alignment; all types have the size and format of their C type.")
    types(ctx, R1)
    primitives(ctx, R2)
    array(ctx, R3)
    chain(ctx, R4)
    chunks(ctx, R5)
    strings(ctx, R6)
    framer(ctx, R7)
    events(ctx, R8)
    tables(ctx, R9)


def nothing(e):
    return None


def opaque_names(*names):
    return lambda it, ev: ev.func is not None and ev.func.name in names


def each_return(ctx, rule, key, qual, cls, pred, opaque=(), label=nothing, **opts):
    """A predicate (text of the problem or None) holds on every returning path."""
    func = ctx.anchor_func(rule, qual)
    if func is None:
        return None
    tr = ctx.trace(func, label, ctx.p.cls(cls) if cls else None, opaque=opaque_names(*opaque), **opts)
    bad = None
    for path in tr.ret:
        msg = pred(path)
        if msg and bad is None:
            bad = (msg, path)
    ctx.ob(rule, key, bad is None and len(tr.ret) > 0, bad[0] if bad else "never returns", tr.func.where, bad[1].show() if bad else ())
    return tr


def with_own(term, name: str):
    """A term where a parameter is the attribute it's stored in."""
    if not isinstance(term, tuple):
        return term
    if term and term[0] == "param" and is_param(term, name):
        return ("attr", ("self", ""), name, ())
    return tuple(with_own(x, name) for x in term)


def is_self(term) -> bool:
    return term is not None and (term[0] == "self" or term[0] == "class")


def own(term, *names) -> bool:
    """self.a.b (or cls.a.b)."""
    for name in reversed(names):
        if term is None or term[0] != "attr" or term[2] != name:
            return False
        term = term[1]
    return is_self(term)


def arg(call, index: int, name: str):
    """An argument of a call term."""
    if index is not None and index < len(call[4]):
        return call[4][index]
    return dict(call[5]).get(name)


def order_ok(path, term, default) -> str | None:
    """The byte order that's used is the one given, else the default."""
    given = none_param(path.st, "byte_order")
    truth = next((pol for atom, pol in facts_of(path.st) if is_param(atom, "byte_order")), None)
    if term is None:
        return "the byte order isn't passed on"
    if is_param(term, "byte_order"):
        return "no byte order is used" if given is True else None
    if default(term):
        return None if given is True or truth is False else "the given byte order is ignored"
    return f"the byte order used is {T.path(term)}"


def fmt_ok(term, order, fmt) -> bool:
    """order.fmt + format"""
    return term[0] == "bin" and term[1] == "+" and term[2][0] == "attr" and term[2][2] == "fmt" and order(term[2][1]) and fmt(term[3]) or (
        term[0] == "fstr" and len(term) > 1 and False
    )


def types(ctx, rule) -> None:
    p = ctx.p

    def packed(term, value) -> bool:
        return (
            term[0] == "call"
            and term[2] == "struct.pack"
            and len(term[4]) == 2
            and fmt_ok(term[4][0], lambda t: is_param(t, "byte_order"), lambda t: own(t, "format"))
            and is_param(term[4][1], value)
        )

    def unpacked(term, data) -> bool:
        return (
            term[0] == "sub"
            and term[2] == ("const", "int", 0)
            and term[1][0] == "call"
            and term[1][2] == "struct.unpack"
            and fmt_ok(term[1][4][0], lambda t: is_param(t, "byte_order"), lambda t: own(t, "format"))
            and data(term[1][4][1])
        )

    def is_read(term) -> bool:
        return term[0] == "call" and term[2] == "read" and is_param(term[3], "stream") and len(term[4]) == 1 and own(term[4][0], "size")

    each_return(ctx, rule, "encode", f"{TYPE}.encode", TYPE, lambda x: None if packed(T.strip(x.val), "value") else f"{T.path(x.val)} is returned")
    each_return(ctx, rule, "decode", f"{TYPE}.decode", TYPE, lambda x: None if unpacked(T.strip(x.val), lambda t: is_param(t, "data")) else f"{T.path(x.val)} is returned")
    each_return(ctx, rule, "read", f"{TYPE}.read", TYPE, lambda x: None if unpacked(T.strip(x.val), is_read) else f"{T.path(x.val)} is returned")

    def written(path):
        writes = [x[1] for x in path.get("write")]
        if len(writes) != 1 or not packed(writes[0], "value"):
            return "the encoded value isn't written once"
        return None

    def label(e):
        if e.kind == "call" and e.ev.attr == "write" and e.ev.recv is not None and is_param(T.strip(e.ev.recv), "stream"):
            return ("write", T.strip(e.ev.args[0]))
        return None

    each_return(ctx, rule, "write", f"{TYPE}.write", TYPE, written, label=label)

    def init(path):
        stores = {x[1]: x[2] for x in path.get("set")}
        if not is_param(stores.get("format", ("?",)), "struct_format"):
            return "the format isn't the given one"
        size = stores.get("size", ("?",))
        if not (size[0] == "call" and size[2] == "struct.calcsize" and (is_param(size[4][0], "struct_format") or own(size[4][0], "format"))):
            return "the size isn't that of the format"
        bits = stores.get("bits", ("?",))
        if not (bits[0] == "bin" and bits[1] == "*" and size in bits[2:4] and ("const", "int", 8) in bits[2:4]):
            return "the number of bits isn't eight per byte"
        return None

    def stores(e):
        if e.kind == "store" and e.ev.kind == "attr" and is_self(T.strip(e.ev.base)):
            return ("set", e.ev.name, T.strip(e.ev.value))
        return None

    each_return(ctx, rule, "size", f"{TYPE}.__init__", TYPE, init, label=stores, cap=2)


def primitives(ctx, rule) -> None:
    def kind_call(term, what, recv=("kind",)):
        return term is not None and term[0] == "call" and term[2].split(".")[-1] == what and term[3] is not None and own(term[3], *recv)

    def current(term) -> bool:
        return own(term, "raw", "value") or own(term, "value")

    def binary(path):
        val = T.strip(path.val)
        if not kind_call(val, "encode") or not current(arg(val, 0, "value")):
            return f"{T.path(val)} is returned"
        return order_ok(path, arg(val, 1, "byte_order"), lambda t: own(t, "byte_order"))

    each_return(ctx, rule, "binary", f"{PRIM}.binary", PRIM, binary)

    def plain(path):
        val = T.strip(path.val)
        if not kind_call(val, "encode") or not current(arg(val, 0, "value")) or not own(arg(val, 1, "byte_order") or ("?",), "byte_order"):
            return f"{T.path(val)} is returned"
        return None

    each_return(ctx, rule, "__bytes__", f"{PRIM}.__bytes__", PRIM, plain)

    def label(e):
        if e.kind == "call" and e.ev.recv is not None:
            if e.ev.attr == "write" and is_param(T.strip(e.ev.recv), "stream"):
                return ("write", T.strip(e.ev.args[0]))
            if e.ev.attr == "set_value":
                return ("set", T.strip(e.ev.recv), T.strip(e.ev.args[0]))
        if e.kind == "store" and e.ev.kind in ("attr", "prop") and e.ev.name == "value" and is_self(T.strip(e.ev.base)):
            return ("set", T.strip(e.ev.base), T.strip(e.ev.value))
        return None

    def to_stream(path):
        writes = [x[1] for x in path.get("write")]
        if len(writes) != 1:
            return "isn't written once"
        val = writes[0]
        if not kind_call(val, "encode") or not current(arg(val, 0, "value")):
            return f"{T.path(val)} is written"
        if not (own(T.strip(path.val), "kind", "size") or own(T.strip(path.val), "size") or T.strip(path.val)[0] == "call" and T.strip(path.val)[2] == "write"):
            return "the number of bytes written isn't returned"
        return order_ok(path, arg(val, 1, "byte_order"), lambda t: own(t, "byte_order"))

    each_return(ctx, rule, "to_stream", f"{PRIM}.to_stream", PRIM, to_stream, label=label)

    def decoded(path, source):
        sets = list(dict.fromkeys(path.get("set")))
        if len(sets) != 1 or not is_self(sets[0][1]):
            return "isn't updated once"
        val = sets[0][2]
        if not kind_call(val, "decode") and not kind_call(val, "read"):
            return f"{T.path(val)} is stored"
        if not source(arg(val, 0, "data") or arg(val, 0, "stream"), val):
            return f"{T.path(val)} is stored"
        return order_ok(path, arg(val, 1, "byte_order"), lambda t: own(t, "byte_order"))

    def read_own(term, val) -> bool:
        if kind_call(val, "read"):
            return is_param(term, "stream")
        return term is not None and term[0] == "call" and term[2] == "read" and is_param(term[3], "stream") and (own(term[4][0], "kind", "size") or own(term[4][0], "size"))

    each_return(ctx, rule, "update", f"{PRIM}.update", PRIM, lambda x: decoded(x, lambda t, v: kind_call(v, "decode") and is_param(t, "data")), opaque=("set_value",), label=label)
    each_return(ctx, rule, "from_stream", f"{PRIM}.from_stream", PRIM, lambda x: decoded(x, read_own), opaque=("set_value",), label=label)

    def static(what, params):
        def pred(path):
            val = T.strip(path.val)
            if not kind_call(val, what):
                return f"{T.path(val)} is returned"
            for index, name in enumerate(params):
                if not is_param(arg(val, index, name) or ("?",), name):
                    return f"{name} isn't passed on"
            return order_ok(path, arg(val, len(params), "byte_order"), lambda t: own(t, "byte_order"))

        return pred

    for what, params in (("encode", ("value",)), ("decode", ("data",)), ("read", ("stream",)), ("write", ("value", "stream"))):
        each_return(ctx, rule, f"class {what}", f"{PRIM}.{what}", PRIM, static(what, params))
    each_return(ctx, rule, "size", f"{PRIM}.size", PRIM, lambda x: None if own(T.strip(x.val), "kind", "size") else "the size isn't that of the type")


TABLES = ("_primitives", "_format", "size", "_bytes_to_index", "_index_to_bytes")


def array(ctx, rule) -> None:
    p = ctx.p
    cls = ctx.anchor_cls(rule, ARRAY)
    if cls is None:
        return

    # Elements are added together with their format and size.
    def label(e):
        if e.kind == "call" and e.ev.attr in ("append", "insert", "extend") and e.ev.recv is not None and attr_of(T.strip(e.ev.recv), "_primitives"):
            val = T.strip(e.ev.args[-1])
            if e.ev.attr == "extend":
                return ("append", elem_of(val), True, multiple(val))
            return ("append", val, e.ev.attr == "append", 1)
        if e.kind == "store" and e.ev.kind == "attr" and e.ev.name in TABLES:
            return ("set", e.ev.name, T.strip(e.ev.base), T.strip(e.ev.value))
        if e.kind == "store" and e.ev.kind == "sub" and attr_of(T.strip(e.ev.base), "_bytes_to_index", "_index_to_bytes"):
            base = T.strip(e.ev.base)
            key, val = T.strip(e.ev.name), T.strip(e.ev.value)
            offset = val if base[2] == "_index_to_bytes" else key
            now = current(e.st, base_of(e.ev.base), "size")
            return ("table", base[2], key, val, own(offset, "size") or now is not None and T.strip(now) == offset)
        if e.kind == "call" and e.ev.attr == "add" and e.ev.recv is not None and is_param(arg_of(e.ev, 0, "primitive") or ("?",), "primitive"):
            return ("other", T.strip(e.ev.recv), arg_of(e.ev, 0, "primitive"), arg_of(e.ev, 1, "array_length"))
        if e.kind == "call" and e.ev.attr == "assign" and e.ev.recv is not None:
            return ("assign", T.strip(e.ev.recv), T.strip(e.ev.args[0]))
        if e.kind == "iterend":
            return [("cut",)]
        return None

    def base_of(term):
        while term[0] == "attr":
            term = term[1]
        return term

    def arg_of(ev, index, name):
        if index < len(ev.args):
            return T.strip(ev.args[index])
        val = ev.kwargs.get(name)
        return T.strip(val) if val is not None else None

    def elem_of(val):
        return val[2][0] if val[0] == "comp" and val[2] else val

    def multiple(val):
        source = val[3] if val[0] == "comp" else None
        return source[4][0] if source is not None and source[0] == "call" and source[2] == "range" else "?"

    def is_elem(term) -> bool:
        """The primitive or a copy of it."""
        return is_param(term, "primitive") or term[0] == "call" and term[2].split(".")[-1] == "copy" and any(is_param(x, "primitive") for x in T.walk(term))

    def step(item, is_step):
        """By how many elements a value grew."""
        val = item[3]
        if val[0] == "call" and val[2] == "+=":
            return "?"
        if val[0] != "bin" or val[1] != "+":
            return "?"
        base = val[2]
        while base[0] == "bin" and base[1] == "+":
            base = base[2]
        if not attr_of(base, item[1]):
            return "?"
        if is_step(val[3]):
            return 1
        if val[3][0] == "bin" and val[3][1] == "*":
            for one, two in ((val[3][2], val[3][3]), (val[3][3], val[3][2])):
                if is_step(one):
                    return two
        return "?"

    func = ctx.anchor_func(rule, f"{ARRAY}.add")
    if func is not None:
        bad = {}

        def balanced(path):
            """Elements, format and size grow together (in each iteration)."""
            appends = path.get("append")
            want = sorted(str(x[3]) for x in appends)
            if any(not is_elem(x[2 - 1]) or not x[2] for x in appends):
                bad.setdefault("elements", ("something else than the primitive and its copies is added at the end", path))
            if sum(is_param(x[1], "primitive") for x in appends) > 1:
                bad.setdefault("elements", ("the same primitive is added twice", path))
            for what, name, is_step in (("format", "_format", lambda t: suffix_kind(t, "format")), ("size", "size", is_size)):
                steps = sorted(str(step(x, is_step)) for x in path.get("set") if x[1] == name)
                if steps != want:
                    bad.setdefault(what, (f"the {what} isn't extended by that of each added element", path))

        tr = ctx.trace(func, label, cls, cap=3, restart="cut", segment=balanced, opaque=opaque_names("copy", "assign"))
        kinds = set()
        for path in tr.ret:

            def fail(what, msg):
                bad.setdefault(what, (msg, path))

            balanced(path)
            others = path.get("other")
            tables = {x[1]: x for x in path.get("table")}
            kinds.add(bool(others))
            if others:
                if len(others) != 1 or not is_param(others[0][2] or ("?",), "primitive") or not is_param(others[0][3] or ("?",), "array_length"):
                    fail("delegate", "the primitive isn't added (once, with its array length) to the end of the chain")
                if path.has("assign") and path.get("assign")[0][2] != others[0][1]:
                    fail("delegate", "the primitive is added to an array that isn't the new end of the chain")
                if tables or path.has("append"):
                    fail("delegate", "the primitive is added to two arrays")
                continue
            index, offset = tables.get("_index_to_bytes"), tables.get("_bytes_to_index")
            if index is None or offset is None:
                fail("tables", "the index tables don't get an entry for the new end")
            else:
                if (index[2], index[3]) != (offset[3], offset[2]):
                    fail("tables", "the index tables don't mirror each other")
                last = max((i for i, x in enumerate(path.labels) if x[0] in ("append", "set")), default=-1)
                if min(path.labels.index(index), path.labels.index(offset)) < last:
                    fail("tables", "the index tables are updated before all elements were added")
                if not index[4] or not offset[4]:
                    fail("tables", "the offset of the new end isn't the size of the array")
                if not (index[2][0] == "call" and index[2][2] == "len" and attr_of(index[2][4][0], "_primitives")):
                    fail("tables", "the index of the new end isn't the number of elements")
        for what in ("delegate", "elements", "format", "size", "tables"):
            msg, path = bad.get(what, ("", None))
            ctx.ob(rule, f"add/{what}", path is None, msg, func.where, path.show() if path is not None else ())
        # At least one element is added where the primitive isn't passed on.
        plain = ctx.trace(func, lambda e: label(e) if e.kind == "call" else None, cls, cap=1, opaque=opaque_names("copy", "assign"))
        once = [x for x in plain.ret if any(is_param(y[1], "primitive") for y in x.get("append")) == x.has("other")]
        ctx.ob(rule, "add/once", not once, "the primitive itself isn't added", func.where, once[0].show() if once else ())
        ctx.ob(rule, "add/cases", kinds == {True, False}, "elements are never added here, or never passed on", func.where)
        # The number of copies.
        ctx.ob(rule, "add/count", copies(func), "an array doesn't have as many elements as its length", func.where)

    # The tables describe an empty array initially, and after a reset.
    for name in ("__init__", "reset"):
        func = ctx.anchor_func(rule, f"{ARRAY}.{name}")
        if func is None:
            continue
        tr = ctx.trace(func, label, cls, cap=2, opaque=opaque_names("add", "_add_fragment"))
        want = {"_primitives": is_empty_list, "size": lambda t: t == ("const", "int", 0), "_format": lambda t: t[0] == "attr" and t[2] == "fmt", "_bytes_to_index": is_origin, "_index_to_bytes": is_origin}
        for path in tr.ret:
            first = {}
            for item in path.get("set"):
                first.setdefault(item[1], item[3])
            missing = [n for n, ok in want.items() if n not in first or not ok(first[n])]
            ctx.ob(rule, f"{name}/empty", not missing, f"{', '.join(missing)} isn't that of an empty array", func.where, path.show())
            fmt = first.get("_format")
            if fmt is not None:
                ctx.ob(rule, f"{name}/order", own(fmt, "byte_order", "fmt") or is_param(fmt[1], "byte_order"), "the format doesn't start with the array's byte order", func.where)

    # Nothing else changes them.
    count = 0
    for func in p.all_functions():
        for node in ast.walk(func.node):
            target = None
            if isinstance(node, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                targets = node.targets if isinstance(node, ast.Assign) else [node.target]
                for item in targets:
                    base = item.value if isinstance(item, ast.Subscript) else item
                    if isinstance(base, ast.Attribute) and base.attr in ("_primitives", "_format", "_bytes_to_index", "_index_to_bytes"):
                        target = base.attr
            elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ("append", "insert", "extend", "pop", "remove", "clear", "update", "setdefault", "reverse", "sort"):
                base = node.func.value
                if isinstance(base, ast.Attribute) and base.attr in ("_primitives", "_format", "_bytes_to_index", "_index_to_bytes"):
                    target = base.attr
            elif isinstance(node, ast.Delete) and any(isinstance(x, ast.Subscript) and isinstance(x.value, ast.Attribute) and x.value.attr in ("_primitives", "_bytes_to_index", "_index_to_bytes") for x in node.targets):
                target = "element"
            if target:
                count += 1
                inside = func.cls is not None and any(c.qual == ARRAY for c in p.mro_classes(func.cls))
                ok = inside and at_home(p, func, "__init__", "reset", "add")
                ctx.ob(rule, f"writer/{func.qual}", ok, f"{target} of an array is changed on its own", f"{func.module.rel}:{node.lineno}")
    ctx.floor(rule, "changes of array bookkeeping", count, 8)

    # Encoding and decoding.
    def encoded(path):
        val = T.strip(path.val)
        if val[0] != "call" or val[2] != "struct.pack" or not own(val[4][0], "_format") or len(val[4]) != 2 or val[4][1][0] != "star":
            return f"{T.path(val)} is returned"
        comp = val[4][1][1]
        if comp[0] != "comp" or not own(comp[3], "_primitives"):
            return "the values of other elements are encoded"
        if comp[2] and not (comp[2][0][0] == "attr" and comp[2][0][2] == "value" and comp[2][0][1][0] == "iter"):
            return "something else than the elements' values is encoded"
        return None

    func = p.func(f"{ARRAY}.__bytes__")
    if func is not None and any(isinstance(n, (ast.For, ast.While)) for n in ast.walk(func.node)):
        ctx.ob(rule, "__bytes__", mentions(func, "_format", "_primitives", "value"), "elements aren't encoded with the array's format", func.where)
    else:
        each_return(ctx, rule, "__bytes__", f"{ARRAY}.__bytes__", ARRAY, encoded)

    def setter(e):
        if e.kind == "loop" and e.term is not None:
            return ("loop", T.strip(e.term))
        if e.kind == "call" and e.ev.attr == "set_value":
            return ("set", T.strip(e.ev.recv), T.strip(e.ev.args[0]), e.ev.kwargs.get("timestamp_ns") or (e.ev.args[1] if len(e.ev.args) > 1 else None), e.st)
        if e.kind == "store" and e.ev.kind in ("attr", "prop") and e.ev.name == "value":
            return ("raw",)
        return None

    def is_unpack(term) -> bool:
        return term[0] == "call" and term[2] == "struct.unpack" and own(term[4][0], "_format") and is_param(term[4][1], "data")

    def updated(path):
        if path.has("raw"):
            return "elements are changed without their update time"
        for item in path.get("set"):
            if item[3] is None or not is_param(item[3], "timestamp_ns"):
                return "the elements' update time isn't the given one"
            elem, value = item[1], item[2]
            if not T.contains(elem, lambda t: own(t, "_primitives")):
                return "something else than an element is updated"
            if not T.contains(value, is_unpack) or T.contains(value, lambda t: own(t, "_primitives") and not zipped(value)):
                return "an element's value isn't decoded with the array's format"
            if not aligned(elem, value):
                return "an element gets the value of another"
        if not own(T.strip(path.val), "size"):
            return "the number of bytes consumed isn't returned"
        return None

    tr = each_return(ctx, rule, "update", f"{ARRAY}.update", ARRAY, updated, opaque=("set_value",), label=setter)
    if tr is not None:
        ctx.ob(rule, "update/elements", any(x.has("set") for x in tr.ret), "elements are never updated", tr.func.where)

    # Fragments.
    def fragments(e):
        if e.kind == "call" and e.ev.attr == "append" and e.ev.recv is not None and attr_of(T.strip(e.ev.recv), "_fragments", "_fragment_specs"):
            return ("append", T.strip(e.ev.recv)[2], T.strip(e.ev.args[0]))
        return None

    def both(path):
        got = {x[1]: x[2] for x in path.get("append")}
        if len(path.get("append")) != 2 or set(got) != {"_fragments", "_fragment_specs"}:
            return "a fragment isn't stored once, with its specification"
        if not is_param(got["_fragment_specs"], "spec") or not T.contains(got["_fragments"], lambda t: is_param(t, "spec")):
            return "the fragment isn't that of the specification"
        val = T.strip(path.val)
        if not (val[0] == "call" and val[2] == "len" and attr_of(val[4][0], "_fragments", "_fragment_specs")):
            return "the index of the fragment isn't returned"
        return None

    each_return(ctx, rule, "fragment", f"{ARRAY}._add_fragment", ARRAY, both, opaque=("_create_fragment",), label=fragments)

    def created(path):
        val = T.strip(path.val)
        text = str(val)
        if "index_start" not in text or "index_end" not in text or not T.contains(val, lambda t: own(t, "_primitives")):
            return "a fragment doesn't hold the elements that are specified"
        if not T.contains(val, lambda t: own(t, "byte_order")):
            return "a fragment doesn't have the array's byte order"
        return None

    each_return(ctx, rule, "fragment/elements", f"{ARRAY}._create_fragment", ARRAY, created, opaque=())

    def spec_of(first, last, convert, order):
        def pred(path):
            val = T.strip(path.val)
            args = fields_of(path, val)
            if args is None:
                return f"{T.path(val)} is returned"
            start, end, start2, end2 = (args[i] for i in order)
            if not is_param(start, "start"):
                return "the fragment doesn't start where it should"
            for raw, conv in ((start, start2), (end, end2)):
                if not (conv[0] == "sub" and attr_of(conv[1], convert) and conv[2] == raw or conv[0] == "call" and conv[4][:1] == (raw,)):
                    return "element indices and byte offsets of the fragment don't belong together"
            return None

        return pred

    each_return(ctx, rule, "fragment/indices", f"{ARRAY}._index_fragment_spec", ARRAY, spec_of("start", "end", "_index_to_bytes", (0, 1, 2, 3)))
    each_return(ctx, rule, "fragment/bytes", f"{ARRAY}._byte_fragment_spec", ARRAY, spec_of("start", "end", "_bytes_to_index", (2, 3, 0, 1)))


def fields_of(path, val):
    """Fields of a fragment specification."""
    args = None
    if val[0] == "new":
        args = val[3] if len(val) > 3 else None
    if val[0] == "call":
        args = val[4]
        names = ("index_start", "index_end", "byte_start", "byte_end")
        kw = dict(val[5])
        args = tuple(args) + tuple(kw[n] for n in names[len(args):] if n in kw)
    if args is None or len(args) != 4:
        return None
    return args


def zipped(term) -> bool:
    return T.contains(term, lambda t: t[0] == "call" and t[2] in ("zip", "enumerate"))


def aligned(elem, value) -> bool:
    """Element and value are the same position of a zip (or share an index)."""
    pairs = [x for x in T.walk(elem) if x[0] in ("sub", "item", "unpack", "iter")]
    for one in pairs:
        for two in T.walk(value):
            if one[0] == two[0] and one != two and len(one) > 2 and len(two) > 2 and one[1] == two[1]:
                return True
            if one[0] == "sub" and two[0] == "sub" and one[2] == two[2]:
                return True
    return False


def attr_of(term, *names) -> bool:
    return term is not None and term[0] == "attr" and term[2] in names


def owner(term):
    return term[1] if term[0] == "attr" else term


def is_empty_list(term) -> bool:
    return str(term) in ("()",) or term[0] == "list" and (len(term) < 3 or not term[1] or term[1] == ()) or term[0] == "new" and "list" in str(term)


def is_origin(term) -> bool:
    return term[0] == "dict" and tuple(term[1]) == ((("const", "int", 0), ("const", "int", 0)),)


def suffix_kind(term, what) -> bool:
    """x.kind.format of the primitive or its copy."""
    return term[0] == "attr" and term[2] == what and term[1][0] == "attr" and term[1][2] == "kind" and T.contains(term, lambda t: is_param(t, "primitive"))


def is_size(term) -> bool:
    if term[0] == "attr" and term[2] == "size" and T.contains(term, lambda t: is_param(t, "primitive")):
        return True
    return False


def copies(func) -> bool:
    """The loop that adds copies runs array_length - 1 times."""
    for node in ast.walk(func.node):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "range":
            text = ",".join(ast.unparse(x).replace(" ", "") for x in node.args)
            if "array_length" not in text:
                continue
            if re.fullmatch(r"(0,)?\(?array_length(or1)?\)?-1", text) or re.fullmatch(r"1,\(?array_length(or1)?\)?", text):
                continue
            if text not in ("array_length", "0,array_length", "array_lengthor1"):
                return False
            # All elements are added in the loop.
            if sum(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "append" for x in ast.walk(func.node)) > 1:
                return False
    return True


def mentions(func, *names) -> bool:
    seen = {n.attr for n in ast.walk(func.node) if isinstance(n, ast.Attribute)}
    return all(n in seen for n in names)


def chain(ctx, rule) -> None:
    def has_chain(st):
        for atom, pol in facts_of(st):
            if atom[0] == "isnone" and own(atom[1], "chain"):
                return not pol
            if own(atom, "chain"):
                return pol
        return None

    def on_chain(term, name) -> bool:
        return term[0] == "call" and term[2].split(".")[-1] == name and own(term[3], "chain")

    def summed(what, mine, name):
        def pred(path):
            val = T.strip(path.val)
            present = has_chain(path.st)
            if present is None:
                return "whether there's a next element isn't checked"
            if not present:
                return None if mine(val) else f"{T.path(val)} is returned for the last element"
            if val[0] == "bin" and val[1] == "+" and (mine(val[2]) and on_chain(val[3], name) or mine(val[3]) and on_chain(val[2], name)):
                return None
            return f"{T.path(val)} is returned"

        return pred

    each_return(ctx, rule, "length", f"{SER}.length", FIXED, summed("length", lambda t: own(t, "size"), "length"))

    def label(e):
        if e.kind == "call" and e.ev.recv is not None:
            if e.ev.attr == "write" and is_param(T.strip(e.ev.recv), "stream"):
                return ("write", T.strip(e.ev.args[0]))
            if e.ev.attr in ("to_stream", "from_stream") and own(T.strip(e.ev.recv), "chain"):
                return ("next", T.strip(e.ev.args[0]) if e.ev.args else None, e.ev.kwargs.get("timestamp_ns"))
            if e.ev.attr == "_from_stream" and is_self(T.strip(e.ev.recv)):
                return ("own", T.strip(e.ev.args[0]), e.ev.kwargs.get("timestamp_ns") or (e.ev.args[1] if len(e.ev.args) > 1 else None))
        return None

    def writes(path):
        items = path.get("write")
        if len(items) != 1 or not (items[0][1][0] == "call" and items[0][1][2] in ("bytes", "__bytes__") and any(is_self(x) for x in (items[0][1][4] or (items[0][1][3],)))):
            return "the element isn't written once"
        if has_chain(path.st) is not False:
            if path.count("next") != 1 or path.labels.index(path.get("next")[0]) < path.labels.index(items[0]):
                return "the next element isn't written after this one"
            if not is_param(path.get("next")[0][1] or ("?",), "stream"):
                return "the next element is written elsewhere"
        elif path.has("next"):
            return "a next element is written that doesn't exist"
        return summed("", lambda t: own(t, "size") or t[0] == "call" and t[2] == "write", "to_stream")(path)

    each_return(ctx, rule, "to_stream", f"{SER}.to_stream", SER, writes, label=label, opaque=("__bytes__",))

    def reads(path):
        if path.count("own") != 1 or not is_param(path.get("own")[0][1], "stream") or not is_param(path.get("own")[0][2] or ("?",), "timestamp_ns"):
            return "the element isn't read once from the stream, with the given time"
        if has_chain(path.st) is not False:
            if path.count("next") != 1 or path.labels.index(path.get("next")[0]) < path.labels.index(path.get("own")[0]):
                return "the next element isn't read after this one"
            if not is_param(path.get("next")[0][1] or ("?",), "stream") or not is_param(path.get("next")[0][2] or ("?",), "timestamp_ns"):
                return "the next element isn't read from the stream, with the given time"
        elif path.has("next"):
            return "a next element is read that doesn't exist"
        return summed("", lambda t: t[0] == "call" and t[2].split(".")[-1] == "_from_stream", "from_stream")(path)

    each_return(ctx, rule, "from_stream", f"{SER}.from_stream", SER, reads, label=label, opaque=("_from_stream",))

    def plain(path):
        val = T.strip(path.val)
        if not (val[0] == "call" and val[2].split(".")[-1] == "update" and is_self(val[3])):
            return f"{T.path(val)} is returned"
        data = arg(val, 0, "data")
        if not (data[0] == "call" and data[2] == "read" and is_param(data[3], "stream") and data[4] and own(data[4][0], "size")):
            return "an element doesn't read as many bytes as it has"
        if not is_param(arg(val, 1, "timestamp_ns") or ("?",), "timestamp_ns"):
            return "the given time isn't used"
        return None

    each_return(ctx, rule, "_from_stream", f"{SER}._from_stream", SER, plain, opaque=("update",))

    def ends(path):
        val = T.strip(path.val)
        present = has_chain(path.st)
        if present is False:
            return None if is_self(val) else "the last element isn't the end"
        if present and not (val[0] == "attr" and val[2] == "end" and own(val[1], "chain")):
            return "the end isn't that of the rest of the chain"
        return None if present is not None else "whether there's a next element isn't checked"

    each_return(ctx, rule, "end", f"{SER}.end", SER, ends, opaque=("end",))

    def assigns(e):
        if e.kind == "store" and e.ev.kind == "attr" and e.ev.name == "chain":
            return ("set", T.strip(e.ev.base), T.strip(e.ev.value), has_chain(e.st))
        if e.kind == "call" and e.ev.attr == "assign":
            return ("assign", T.strip(e.ev.recv), T.strip(e.ev.args[0]))
        if e.kind == "store" and e.ev.kind == "attr" and e.ev.name == "byte_order":
            return ("order", T.strip(e.ev.base), T.strip(e.ev.value))
        return None

    def assigned(path):
        sets = list(dict.fromkeys(path.get("set")))
        if len(sets) != 1 or not is_self(sets[0][1]) or not is_param(sets[0][2], "chain"):
            return "the next element isn't stored"
        if sets[0][3] is not False:
            return "a next element is replaced"
        return None

    each_return(ctx, rule, "assign", f"{SER}.assign", SER, assigned, label=assigns)

    def copied(path):
        val = T.strip(path.val)
        if not (val[0] == "call" and val[2].split(".")[-1] in ("copy_without_chain", "_copy_impl")):
            return f"{T.path(val)} is returned"
        if has_chain(path.st) is not False:
            got = path.get("assign")
            if len(got) != 1 or got[0][1] != val or not T.contains(got[0][2], lambda t: own(t, "chain")) or got[0][2][0] != "call":
                return "the copy doesn't continue with a copy of the rest of the chain"
        return None

    each_return(ctx, rule, "copy", f"{SER}.__copy__", SER, copied, label=assigns, opaque=("copy_without_chain", "assign", "copy"))

    def single(path):
        val = T.strip(path.val)
        orders = [x for x in path.get("order") if x[1] == val]
        if not (val[0] == "call" and val[2].split(".")[-1] == "_copy_impl"):
            return f"{T.path(val)} is returned"
        if not orders or not own(orders[-1][2], "byte_order"):
            return "the copy doesn't have the same byte order"
        return None

    each_return(ctx, rule, "copy/order", f"{SER}.copy_without_chain", SER, single, label=assigns, opaque=("_copy_impl",))

    def added(path):
        got = path.get("assign")
        if not got or not is_param(got[0][2], "chain"):
            return "the element itself isn't added first"
        bases = [x[1] for x in got]
        if any(not (b[0] == "attr" and b[2] == "end" or b[0] == "call" and b[2].split(".")[-1] == "end") for b in bases):
            return "an element isn't added to the end of the chain"
        if any(not (x[2][0] == "call" and x[2][2].split(".")[-1] == "copy") for x in got[1:]):
            return "further elements aren't copies"
        return None

    func = ctx.p.func(f"{SER}.add_to_end")
    tr = each_return(ctx, rule, "add_to_end", f"{SER}.add_to_end", SER, added, label=assigns, opaque=("assign", "end", "copy"), cap=4)
    if tr is not None:
        ctx.ob(rule, "add_to_end/count", copies(func), "an array doesn't have as many elements as its length", func.where)
        ctx.ob(rule, "add_to_end/arrays", any(x.count("assign") > 1 for x in tr.ret), "arrays of elements are never added", func.where)
        # The copy is made before the element becomes part of the chain.
        late = None
        for path in tr.ret:
            for item in path.get("assign")[1:]:
                inner = item[2]
                if T.contains(inner, lambda t: is_param(t, "chain")) and not any(x[0] == "call" and x != inner for x in T.walk(inner)):
                    late = path
        ctx.ob(rule, "add_to_end/copies", late is None, "elements are copied after they became part of the chain", func.where, late.show() if late else ())


def chunks(ctx, rule) -> None:
    p = ctx.p

    def stores(e):
        if e.kind == "store" and e.ev.kind == "attr" and e.ev.name in ("data", "size", "chunk", "prefix", "value"):
            return ("set", e.ev.name, T.strip(e.ev.base), T.strip(e.ev.value))
        if e.kind == "call" and e.ev.attr in ("update", "from_stream", "read") and e.ev.recv is not None:
            return ("call", e.ev.attr, T.strip(e.ev.recv), tuple(T.strip(a) for a in e.ev.args), tuple(sorted((k, T.strip(v)) for k, v in e.ev.kwargs.items())))
        return None

    # Data and size change together.
    for name in ("__init__", "update"):

        def pred(path):
            data = [x for x in path.get("set") if x[1] == "data" and is_self(x[2])]
            size = [x for x in path.get("set") if x[1] == "size" and is_self(x[2])]
            if not data or not is_param(data[-1][3], "data"):
                return "the data isn't stored"
            last = size[-1][3] if size else None
            if last is None or not (last[0] == "call" and last[2] == "len" and (last[4][0] == data[-1][3] or own(last[4][0], "data"))):
                return "the size isn't that of the data"
            return None

        each_return(ctx, rule, f"fixed/{name}", f"{FIXED}.{name}", FIXED, pred, label=stores, cap=3)
    each_return(ctx, rule, "fixed/bytes", f"{FIXED}.__bytes__", FIXED, lambda x: None if own(T.strip(x.val), "data") else "something else than the data is encoded")

    def sized(term) -> bool:
        return T.contains(term, lambda t: t[0] == "attr" and t[2] == "size") and term[0] == "bin" and term[1] == "+"

    def is_prefix(term) -> bool:
        return own(term, "prefix")

    def encoded(path):
        val = T.strip(path.val)
        if not (val[0] == "bin" and val[1] == "+" and val[2][0] == "call" and val[2][2].split(".")[-1] == "binary" and is_prefix(val[2][3])):
            return f"{T.path(val)} is returned"
        if not own(arg(val[2], 0, "byte_order") or ("?",), "byte_order"):
            return "the prefix isn't encoded in the chunk's byte order"
        if not (T.contains(val[3], lambda t: own(t, "chunk"))):
            return "the prefix isn't followed by the data"
        return None

    each_return(ctx, rule, "prefixed/bytes", f"{PREFIXED}.__bytes__", PREFIXED, encoded, opaque=("__bytes__",))

    def decoded(path):
        reads = [x for x in path.get("call") if x[1] == "from_stream" and is_prefix(x[2])]
        if len(reads) != 1 or not is_param(reads[0][3][0], "stream"):
            return "the prefix isn't read once from the stream"
        if not own(dict(reads[0][4]).get("byte_order") or (reads[0][3][1] if len(reads[0][3]) > 1 else ("?",)), "byte_order"):
            return "the prefix isn't read in the chunk's byte order"
        datas = [x for x in path.get("call") if x[1] == "read"]
        if len(datas) != 1 or not is_param(datas[0][2], "stream") or not datas[0][3]:
            return "the data isn't read once from the stream"
        count = datas[0][3][0]
        if not (count[0] == "call" and count[2].split(".")[-1] == "from_stream" and is_prefix(count[3]) or own(count, "prefix", "value")):
            return "something else than the prefixed number of bytes is read"
        kept = [x for x in path.get("call") if x[1] == "update" and own(x[2], "chunk")]
        if len(kept) != 1 or not (kept[0][3][0][0] == "call" and kept[0][3][0][2] == "read"):
            return "the data that's read isn't stored once"
        return None

    each_return(ctx, rule, "prefixed/read", f"{PREFIXED}._from_stream", PREFIXED, decoded, opaque=("update", "from_stream", "_update_size"), label=stores)

    def refreshed(path):
        # The prefix and the total size follow the data.
        sets = [x for x in path.get("set") if x[1] == "size" and is_self(x[2])]
        if not sets:
            return "the size isn't updated"
        val = with_own(sets[-1][3], "prefix")
        if not (val[0] == "bin" and val[1] == "+" and any(own(x, "prefix", "kind", "size") or own(x, "prefix", "size") for x in val[2:4])):
            return f"the size becomes {T.path(val)}"
        other = next(x for x in val[2:4] if not (own(x, "prefix", "kind", "size") or own(x, "prefix", "size")))
        if not (own(other, "prefix", "value") or own(other, "chunk", "size") or other[0] == "call" and (other[2] == "len" or other[2].split(".")[-1] == "from_stream")):
            return f"the size becomes {T.path(val)}"
        return None

    for name in ("update", "_from_stream", "__init__"):
        each_return(ctx, rule, f"prefixed/{name}/size", f"{PREFIXED}.{name}", PREFIXED, refreshed, label=stores, cap=3)

    def prefix_set(path):
        # The prefix is assigned the new size before the total is computed.
        order = [x for x in path.labels if x[0] == "prefix"]
        if len(order) != 1:
            return "the prefix isn't set once"
        val = order[0][1]
        if not (val[0] == "call" and (val[2] == "len" and is_param(val[4][0], "data") or val[2].split(".")[-1] == "update") or own(val, "chunk", "size")):
            return "the prefix isn't the number of bytes of the data"
        return None

    def label2(e):
        if e.kind == "store" and e.ev.name == "value" and is_prefix(T.strip(e.ev.base)):
            return ("prefix", T.strip(e.ev.value))
        if e.kind == "call" and e.ev.attr in ("set_value", "__call__") and e.ev.recv is not None and is_prefix(T.strip(e.ev.recv)):
            return ("prefix", T.strip(e.ev.args[0]))
        return None

    each_return(ctx, rule, "prefixed/update/prefix", f"{PREFIXED}.update", PREFIXED, prefix_set, label=label2, cap=3)

    # Every serializable knows how to encode itself the way it decodes.
    count = 0
    for cls in concrete(p, SER):
        own_methods = set(cls.methods)
        count += 1
        if "_from_stream" in own_methods or "update" in own_methods:
            ctx.ob(rule, f"pair/{cls.qual}", "__bytes__" in own_methods or cls.qual == SER, f"{cls.qual} decodes differently from how it encodes", cls.where if hasattr(cls, "where") else cls.qual)
    ctx.floor(rule, "serializable classes", count, 4)


def strings(ctx, rule) -> None:
    p = ctx.p

    def encoded_len(term, value) -> bool:
        return term[0] == "call" and term[2] == "len" and term[4][0][0] == "call" and term[4][0][2].split(".")[-1] == "encode" and value(term[4][0][3])

    def label(e):
        if e.kind == "store" and e.ev.kind in ("attr", "prop"):
            base = T.strip(e.ev.base)
            if e.ev.name == "value" and own(base, "_size"):
                return ("size", T.strip(e.ev.value))
            if e.ev.name == "_value" and is_self(base):
                return ("value", T.strip(e.ev.value))
            if e.ev.name == "_size" and is_self(base):
                return ("prefix", T.strip(e.ev.value))
        if e.kind == "call" and e.ev.recv is not None:
            base = T.strip(e.ev.recv)
            if e.ev.attr in ("set_value", "__call__") and own(base, "_size") and e.ev.args:
                return ("size", T.strip(e.ev.args[0]))
            if e.ev.attr in ("to_stream", "from_stream") and own(base, "_size"):
                return (e.ev.attr, T.strip(e.ev.args[0]), T.strip(e.ev.kwargs["byte_order"]) if "byte_order" in e.ev.kwargs else (T.strip(e.ev.args[1]) if len(e.ev.args) > 1 else None))
            if e.ev.attr in ("write", "read") and is_param(base, "stream"):
                return (e.ev.attr, T.strip(e.ev.args[0]) if e.ev.args else None)
        return None

    def is_value(term) -> bool:
        return is_param(term, "value") or own(term, "_value")

    def assigned(path):
        if not path.has("value") or not is_param(path.get("value")[-1][1], "value"):
            return "the string isn't stored"
        if not path.has("size") or any(not encoded_len(x[1], is_value) for x in path.get("size")):
            return "the prefix isn't the number of encoded bytes"
        return None

    each_return(ctx, rule, "set", f"{STRING}.set", STRING, assigned, label=label)

    def initial(path):
        vals = path.get("prefix")
        if len(vals) != 1:
            return "there's no prefix"
        found = [x for x in T.walk(vals[0][1]) if x[0] == "call" and x[2] == "len"]
        if not any(encoded_len(x, is_value) for x in found) and not any(encoded_len(x[1], is_value) for x in path.get("size")):
            return "the prefix isn't the number of encoded bytes"
        return None

    each_return(ctx, rule, "initial", f"{STRING}.__init__", STRING, initial, label=label)

    def writes(path):
        if path.count("to_stream") != 1 or path.count("write") != 1:
            return "prefix and string aren't written once each"
        pre, text = path.get("to_stream")[0], path.get("write")[0]
        if path.labels.index(pre) > path.labels.index(text):
            return "the string is written before its prefix"
        if not is_param(pre[1], "stream") or not own(pre[2] or ("?",), "byte_order"):
            return "the prefix isn't written in the string's byte order"
        if not (text[1][0] == "call" and text[1][2].split(".")[-1] == "encode" and is_value(text[1][3]) and not text[1][4]):
            return "something else than the encoded string is written"
        return None

    each_return(ctx, rule, "write", f"{STRING}.write", STRING, writes, label=label, opaque=("to_stream",))

    def reads(path):
        if path.count("from_stream") != 1 or path.count("read") != 1:
            return "prefix and string aren't read once each"
        pre, text = path.get("from_stream")[0], path.get("read")[0]
        if not is_param(pre[1], "stream") or not own(pre[2] or ("?",), "byte_order"):
            return "the prefix isn't read in the string's byte order"
        count = text[1]
        if count is None or not (count[0] == "call" and count[2].split(".")[-1] == "from_stream" or own(count, "_size", "value")):
            return "something else than the prefixed number of bytes is read"
        if not path.has("value"):
            return "the string isn't stored"
        val = path.get("value")[-1][1]
        if not (val[0] == "call" and val[2].split(".")[-1] == "decode" and val[3][0] == "call" and val[3][2] == "read" and not val[4]):
            return "something else than the decoded string is stored"
        return None

    each_return(ctx, rule, "read", f"{STRING}.read", STRING, reads, label=label, opaque=("from_stream",))
    each_return(
        ctx, rule, "size", f"{STRING}.size", STRING,
        lambda x: None if T.strip(x.val)[0] == "bin" and T.strip(x.val)[1] == "+" and {T.path(y).split(".", 1)[-1] for y in T.strip(x.val)[2:4]} in ({"_size.value", "_size.size"}, {"_size.raw.value", "_size.kind.size"}) else f"the size is {T.path(x.val)}",
    )

    def shared(path):
        val = T.strip(path.val)
        if not T.contains(val, lambda t: is_param(t, "kind")) or not T.contains(val, lambda t: is_param(t, "byte_order")):
            return "the string doesn't have the given kind of prefix and byte order"
        return None if path.count("read") == 1 else "the string isn't read"

    def label2(e):
        if e.kind == "call" and e.ev.attr == "read":
            return ("read",)
        return None

    each_return(ctx, rule, "from_stream", f"{STRING}.from_stream", STRING, shared, label=label2, opaque=("read", "__init__"))


def framer(ctx, rule) -> None:
    p = ctx.p

    def label(e):
        if e.kind == "store" and e.ev.kind == "attr" and is_self(T.strip(e.ev.base)):
            return ("set", e.ev.name, T.strip(e.ev.value))
        if e.kind == "call" and e.ev.attr == "to_stream" and own(T.strip(e.ev.recv), "instance"):
            return ("sample",)
        return None

    func = ctx.anchor_func(rule, f"{FRAMER}.capture")
    if func is not None:
        tr = ctx.trace(func, label, ctx.p.cls(FRAMER), cap=3)
        bad = {}
        seen = set()
        for path in tr.ret:
            sampling = next((pol for atom, pol in facts_of(path.st) if is_param(atom, "sample")), None)
            sets = [x for x in path.get("set")]
            raws = [x[2] for x in sets if x[1] == "raw"]
            elems = [x[2] for x in sets if x[1] == "elements"]
            grown_raw = [x for x in raws if x[0] == "bin" and x[1] == "+"]
            grown_elem = [x for x in elems if x[0] == "bin" and x[1] == "+" and x[3] == ("const", "int", 1)]
            val = T.strip(path.val)
            emits = val != T.NONE
            seen.add((sampling, emits))
            if sampling is not False:
                if path.count("sample") != 1 or len(grown_raw) != 1 or len(grown_elem) != 1:
                    bad.setdefault("sample", ("a sample (the whole chain) isn't taken and counted once", path))
                elif not own(grown_raw[0][2], "raw"):
                    bad.setdefault("sample", ("a sample isn't appended to previous ones", path))
            elif path.has("sample") or grown_raw or grown_elem:
                bad.setdefault("sample", ("a sample is taken that wasn't asked for", path))
            if emits:
                if not (grown_raw and val == grown_raw[-1] or own(val, "raw")):
                    bad.setdefault("frame", ("something else than the samples is returned", path))
                flush = next((pol for atom, pol in facts_of(path.st) if is_param(atom, "flush")), None)
                full = any(atom[0] == "cmp" and atom[1] == "==" and pol and any(own(x, "length") for x in atom[2:4]) for atom, pol in facts_of(path.st)) or any(
                    atom[0] == "cmp" and atom[1] == "<" and not pol and own(atom[3], "length") for atom, pol in facts_of(path.st)
                )
                if flush is not True and not full:
                    bad.setdefault("frame", ("a frame is returned that isn't complete", path))
                if not elems or elems[-1] != ("const", "int", 0) or not raws or T.contains(raws[-1], lambda t: own(t, "raw")):
                    bad.setdefault("reset", ("samples of a returned frame are kept", path))
            elif any(x == ("const", "int", 0) for x in elems):
                bad.setdefault("reset", ("samples are dropped", path))
        for what in ("sample", "frame", "reset"):
            msg, path = bad.get(what, ("", None))
            ctx.ob(rule, f"capture/{what}", path is None, msg, func.where, path.show() if path is not None else ())
        ctx.ob(rule, "capture/cases", {True, False} <= {x[0] for x in seen} and {True, False} == {x[1] for x in seen}, "frames are never (or always) returned", func.where)

    def sized(path):
        vals = [x[2] for x in path.get("set") if x[1] == "length"]
        if len(vals) != 1:
            return "the number of samples per frame isn't set"
        val = vals[0]
        if not (val[0] == "bin" and val[1] == "//" and val[3][0] == "call" and val[3][2].split(".")[-1] == "length" and own(val[3][3], "instance")):
            return f"{T.path(val)} samples are put in a frame"
        if not (val[2][0] == "bin" and val[2][1] == "-" and is_param(val[2][2], "mtu") and is_param(val[2][3], "protocol_overhead")):
            return "a frame isn't limited by the transmission unit without overhead"
        if not [x for x in path.get("set") if x[1] == "raw"]:
            return "samples that were taken for another size are kept"
        return None

    each_return(ctx, rule, "set_mtu", f"{FRAMER}.set_mtu", FRAMER, sized, label=label, opaque=("length",))


def events(ctx, rule) -> None:
    p = ctx.p

    def label(e):
        if e.kind == "call" and e.ev.recv is not None and e.ev.attr == "to_stream":
            recv = T.strip(e.ev.recv)
            what = "header" if T.contains(recv, lambda t: own(t, "header")) else "value" if T.contains(recv, lambda t: own(t, "primitive")) else "other"
            order = e.ev.kwargs.get("byte_order") or (e.ev.args[1] if len(e.ev.args) > 1 else None)
            return ("write", what, T.strip(e.ev.args[0]), T.strip(order) if order is not None else None, e.ev.term)
        if e.kind == "call" and e.ev.attr == "__setitem__" and e.ev.recv is not None and own(T.strip(e.ev.recv), "header"):
            return ("field", T.strip(e.ev.args[0]), T.strip(e.ev.args[1]))
        if e.kind == "store" and e.ev.kind == "sub" and own(T.strip(e.ev.base), "header"):
            return ("field", T.strip(e.ev.name), T.strip(e.ev.value))
        if e.kind == "store" and e.ev.kind == "attr" and e.ev.name == "prev_ns" and is_self(T.strip(e.ev.base)):
            return ("prev", T.strip(e.ev.value))
        return None

    def is_time(term) -> bool:
        return own(term, "primitive", "last_updated_ns")

    def polled(path):
        writes = path.get("write")
        if not writes:
            return "an event is lost but later ones are limited by it" if path.has("prev") else None
        if [x[1] for x in writes] != ["header", "value"]:
            return "an event isn't a header followed by a value"
        if any(not is_param(x[2], "stream") for x in writes):
            return "an event is written elsewhere"
        if not (writes[1][3] is not None and writes[1][3][0] == "attr" and writes[1][3][2] == "byte_order" and T.contains(writes[1][3], lambda t: own(t, "header"))):
            return "the value isn't written in the header's byte order"
        fields = path.get("field")
        if len(fields) != 1 or fields[0][1] != ("const", "str", "timestamp") or not is_time(fields[0][2]):
            return "the header doesn't have the time of the change"
        if path.labels.index(fields[0]) > path.labels.index(writes[0]):
            return "the header is written before it has the time of the change"
        if path.count("prev") != 1 or not is_time(path.get("prev")[0][1]):
            return "the time of the last event isn't remembered"
        return None

    tr = each_return(ctx, rule, "event", f"{EVENT}._poll", EVENT, polled, label=label, opaque=("to_stream", "increment", "__setitem__"))
    if tr is not None:
        # An event is only skipped because of the minimum period.
        for path in tr.ret:
            if path.has("write"):
                continue
            forced = next((pol for atom, pol in facts_of(path.st) if is_param(atom, "force")), None)
            early = any(
                atom[0] == "cmp" and atom[1] == "<" and pol and own(atom[3], "min_period_ns") and T.contains(atom[2], is_time) and T.contains(atom[2], lambda t: own(t, "prev_ns"))
                for atom, pol in facts_of(path.st)
            )
            ctx.ob(rule, "event/skipped", forced is False and early, "an event is skipped that isn't limited by the minimum period", tr.func.where, path.show())
        ctx.ob(rule, "event/written", any(x.has("write") for x in tr.ret), "events are never written", tr.func.where)

    # Metrics count what's written.
    func = ctx.anchor_func(rule, "runtimepy.channel.event.header.PrimitiveEventHeader.init_header")
    if func is not None:

        def ident(path):
            got = [x for x in path.get("field")]
            return None if len(got) == 1 and got[0][1] == ("const", "str", "identifier") and is_param(got[0][2], "identifier") else "the header doesn't have the channel's identifier"

        def label2(e):
            if e.kind == "store" and e.ev.kind == "sub" and is_param(T.strip(e.ev.base), "protocol"):
                return ("field", T.strip(e.ev.name), T.strip(e.ev.value))
            if e.kind == "call" and e.ev.attr == "__setitem__":
                return ("field", T.strip(e.ev.args[0]), T.strip(e.ev.args[1]))
            return None

        each_return(ctx, rule, "identifier", func.qual, None, ident, label=label2, opaque=("__setitem__", "validate"))


def tables(ctx, rule) -> None:
    p = ctx.p

    # Byte orders.
    func = ctx.anchor_func(rule, "runtimepy.primitives.byte_order.ByteOrder.fmt")
    cls = ctx.anchor_cls(rule, "runtimepy.primitives.byte_order.ByteOrder")
    if func is not None and cls is not None:
        members = [t.id for stmt in cls.node.body if isinstance(stmt, ast.Assign) for t in stmt.targets if isinstance(t, ast.Name)]
        want = {"NATIVE": "=", "LITTLE_ENDIAN": "<", "BIG_ENDIAN": ">", "NETWORK": "!"}
        got: dict = {}
        tr = ctx.trace(func, nothing, cls)
        for path in tr.ret:
            val = path.val[2] if path.val[0] == "const" else None
            eq = {}
            for atom, pol in facts_of(path.st):
                if atom[0] == "cmp" and atom[1] in ("is", "=="):
                    for x in atom[2:4]:
                        name = T.path(x).split(".")[-1]
                        if name in members:
                            eq[name] = pol
            chosen = [n for n, pol in eq.items() if pol] or [n for n in members if n not in eq]
            for name in chosen:
                got.setdefault(name, set()).add(val)
        for name in members:
            vals = got.get(name, set())
            # Prefixes that don't say anything about themselves can't be judged by paths alone.
            ctx.ob(rule, f"order/{name}", vals == {want.get(name)} or not got, f"{name} is encoded with {vals}", func.where)
        ctx.floor(rule, "byte orders", len(members), 4)

    # Types.
    sizes = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "q": 8, "Q": 8, "f": 4, "d": 8, "e": 2, "?": 1}
    fmts: dict = {}
    count = 0
    for cls in p.subclasses(TYPE):
        func = cls.methods.get("__init__")
        attrs = {t.id: s.value for s in cls.node.body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)}
        if func is None or "name" not in attrs:
            continue
        name = ast.literal_eval(attrs["name"])
        fmt = signed = bounds = None
        for node in ast.walk(func.node):
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "__init__":
                fmt = ast.literal_eval(node.args[0]) if node.args else None
                signed = next((ast.literal_eval(k.value) for k in node.keywords if k.arg == "signed"), ast.literal_eval(node.args[1]) if len(node.args) > 1 else True)
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "create":
                try:
                    bounds = tuple(ast.literal_eval(a) for a in node.args)
                except ValueError:
                    bounds = None
        count += 1
        want = expected(name)
        ctx.ob(rule, f"type/{name}", want is not None and fmt == want[0], f"{name} is encoded as '{fmt}'", func.where)
        if want is None:
            continue
        if want[1] is not None:
            ctx.ob(rule, f"type/{name}/signed", signed == want[1], f"{name} is {'un' if want[1] else ''}signed", func.where)
            ctx.ob(rule, f"type/{name}/bounds", bounds == (sizes[want[0]], want[1]), f"the bounds of {name} are those of {bounds}", func.where)
        python = ast.unparse(attrs["python_type"]) if "python_type" in attrs else None
        ctx.ob(rule, f"type/{name}/python", python == want[2], f"{name} values are {python}", func.where)
        ctx.ob(rule, f"type/{name}/distinct", fmt not in fmts, f"{name} is encoded like {fmts.get(fmt)}", func.where)
        fmts[fmt] = name
    ctx.floor(rule, "primitive types", count, 12)

    # Primitives have the type they are named after, and all can be created by name.
    kinds = {}
    for cls in p.subclasses(PRIM):
        attrs = {t.id: s.value for s in cls.node.body if isinstance(s, (ast.Assign, ast.AnnAssign)) for t in (s.targets if isinstance(s, ast.Assign) else [s.target]) if isinstance(t, ast.Name) and s.value is not None}
        if "kind" in attrs and cls.name not in ("Primitive",):
            kind = ast.unparse(attrs["kind"]).lstrip("_").split(".")[-1]
            cname = cls.name.lstrip("_")
            if cname.startswith("Base"):
                continue
            kinds[cname] = kind
            base = cname[: -len("Primitive")] if cname.endswith("Primitive") else cname
            ctx.ob(rule, f"primitive/{cname}", kind.lower().removesuffix("type")[:4] == base.lower()[:4] and (kind[-1:].isdigit() is False or kind.lower() == base.lower()), f"{cname} has the type {kind}", cls.qual)
    ctx.floor(rule, "primitives", len(kinds), 12)
    mod = p.modules.get("runtimepy.primitives")
    table = None
    if mod is not None:
        for stmt in mod.tree.body:
            target = stmt.target if isinstance(stmt, ast.AnnAssign) else stmt.targets[0] if isinstance(stmt, ast.Assign) else None
            if isinstance(target, ast.Name) and target.id == "Primitives" and isinstance(stmt.value, ast.Dict):
                table = stmt.value
    if table is not None:
        for key, val in zip(table.keys, table.values):
            left = ast.unparse(key).split("(")[0].split(".")[0]
            right = ast.unparse(val)
            ctx.ob(rule, f"named/{right}", left == right or isinstance(key, ast.Constant) and key.value == right.lower(), f"'{ast.unparse(key)}' creates {right}", f"{mod.rel}:{key.lineno}")
        ctx.ob(rule, "named", len({ast.unparse(v) for v in table.values}) >= len(kinds) - 0, "some primitives can't be created by name", mod.rel)


def expected(name: str):
    """Format, signedness and Python type of a type's name."""
    floats = {"half": ("e", None, "float"), "float": ("f", None, "float"), "double": ("d", None, "float"), "bool": ("?", None, "bool")}
    if name in floats:
        return floats[name]
    unsigned = name.startswith("u")
    base = name[1:] if unsigned else name
    fmts = {"int8": "b", "int16": "h", "int32": "i", "int64": "q"}
    if base not in fmts:
        return None
    return (fmts[base].upper() if unsigned else fmts[base], not unsigned, "int")

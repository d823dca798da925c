"""C09: What's exported can be imported again, and copies are made of everything."""

from __future__ import annotations

import ast
import os
import re

from sa import terms as T
from sa.props.c06 import attr_of, each_return, is_self, opaque_names, own
from sa.props.c11 import called
from sa.props.common import facts_of, is_param

LEVEL = "other"
EXPLANATION = (
    "For each exporting method, the content it produces (keys and the attributes they hold, on every path) is compared with what the importing method reads into which attribute or argument. "
    "Schemas are compared with the keys that are written and with the names that the code accepts."
)

CHANNEL = "runtimepy.channel.Channel"
ITEM = "runtimepy.registry.item.RegistryItem"
REGISTRY = "runtimepy.registry.Registry"
ENUM = "runtimepy.enum.RuntimeEnum"
FIELD = "runtimepy.primitives.field.BitField"
FIELDS = "runtimepy.primitives.field.fields.BitFields"
MANAGER = "runtimepy.primitives.field.manager.BitFieldsManager"
MANAGER_BASE = "runtimepy.primitives.field.manager.base.BitFieldsManagerBase"
SPEC = "runtimepy.codec.protocol.base.FieldSpec"
PROTOCOL = "runtimepy.codec.protocol.base.ProtocolBase"
JSON = "runtimepy.codec.protocol.json.JsonProtocol"
FILE_ENV = "runtimepy.channel.environment.file.FileChannelEnvironment"
BASE_ENV = "runtimepy.channel.environment.base.BaseChannelEnvironment"


def run(ctx) -> None:
    R1 = ctx.rule("R1", "Dictionaries hold all of an object's attributes, and they're read back into them.")
    R2 = ctx.rule("R2", "Bit-fields, including padding, keep position, width, value and description.")
    R3 = ctx.rule("R3", "Environments are loaded from all parts they're exported to.")
    R4 = ctx.rule("R4", "Protocols are imported with the layout, names, identifiers and values they were exported with.")
    R5 = ctx.rule("R5", "Copies are made with everything the constructor takes.")
    R6 = ctx.rule("R6", "Schemas accept everything that's exported.")
    dictionaries(ctx, R1)
    fields(ctx, R2)
    environments(ctx, R3)
    protocols(ctx, R4)
    copies(ctx, R5)
    schemas(ctx, R6)


def puts(e):
    """Content that's put into a dictionary."""
    if e.kind == "store" and e.ev.kind == "sub":
        return ("put", T.strip(e.ev.base), T.strip(e.ev.name), T.strip(e.ev.value))
    if e.kind == "call" and e.ev.attr == "update" and e.ev.recv is not None:
        return ("merge", T.strip(e.ev.recv), tuple(T.strip(x) for x in e.ev.args))
    return None


def pairs(term) -> dict:
    if term is None or term[0] != "dict":
        return {}
    return {k[2]: v for k, v in term[1] if isinstance(k, tuple) and k[0] == "const"}


def content(path, val=None) -> dict:
    """Keys and values of a dictionary that's returned."""
    val = T.strip(path.val) if val is None else val
    out = pairs(val)
    for item in path.labels:
        if item[0] == "put" and item[1] == val and item[2][0] == "const":
            out[item[2][2]] = item[3]
    return out


def lookup(term, key: str, source=None) -> bool:
    """Determine if a term is data[key] or data.get(key)."""
    if term[0] == "sub":
        return term[2] == ("const", "str", key) and (source is None or source(term[1]))
    if term[0] == "call" and term[2].split(".")[-1] in ("get", "pop", "setdefault") and term[3] is not None and term[4]:
        return term[4][0] == ("const", "str", key) and (source is None or source(term[3]))
    return False


def reads(term, key: str, source=None) -> bool:
    return term is not None and T.contains(term, lambda t: isinstance(t, tuple) and len(t) > 2 and lookup(t, key, source))


def absent(st, *names, falsy: bool) -> bool:
    """Whether an attribute is known to be None (or empty)."""
    for atom, pol in facts_of(st):
        if atom[0] == "isnone" and attr_of(atom[1], *names) and pol:
            return True
        if falsy and attr_of(atom, *names) and not pol:
            return True
        if not pol and atom[0] == "attr" and atom[2] in ("is_enum", "has_default") and {"is_enum": "_enum", "has_default": "default"}[atom[2]] in names:
            return True
    return False


# key: (attributes it holds, required, can be left out if it's empty, attribute it's read into)
TABLES = {
    CHANNEL: {
        "id": (("id",), True, False, "id"),
        "type": (("type", "kind"), True, False, "raw"),
        "commandable": (("commandable",), True, False, "commandable"),
        "enum": (("_enum", "enum"), False, False, "_enum"),
        "controls": (("controls",), False, True, "controls"),
        "description": (("description",), False, True, "description"),
        "default": (("default",), False, False, "default"),
    },
    ENUM: {
        "id": (("id",), True, False, "id"),
        "type": (("type",), True, False, "type"),
        "primitive": (("primitive",), True, False, "primitive"),
        "items": (("ints", "bools", "_ints", "_bools"), True, False, "_ints _bools"),
    },
    FIELDS: {
        "type": (("kind",), True, False, "raw"),
        "finalized": (("_finalized",), True, False, "_finalized"),
        "fields": ((), True, False, None),
    },
}


def dictionaries(ctx, rule) -> None:
    p = ctx.p

    def written(name, table):
        def check(path):
            got = content(path)
            for key, (attrs, required, empty, _) in table.items():
                if key not in got:
                    if required or not absent(path.st, *attrs, falsy=empty):
                        return f"'{key}' isn't written"
                    continue
                if attrs and not T.contains(got[key], lambda t, a=attrs: attr_of(t, *a)):
                    return f"'{key}' isn't the object's {attrs[0]}"
            extra = set(got) - set(table)
            if extra:
                return f"{sorted(extra)} aren't read back"
            return None

        return check

    def label(e):
        if e.kind == "store" and e.ev.kind == "attr" and is_self(T.strip(e.ev.base)):
            return ("set", e.ev.name, T.strip(e.ev.value))
        if e.kind == "call" and e.ev.attr == "set_default":
            return ("set", "default", T.strip(e.ev.args[0]) if e.ev.args else T.strip(e.ev.kwargs.get("default", ("const", "NoneType", None))))
        if e.kind == "call" and e.ev.name and e.ev.name.endswith("primitives.normalize"):
            return ("kind", T.strip(e.ev.args[0]))
        return None

    def restored(table):
        def check(path):
            for key, (_, required, _, attrs) in table.items():
                if attrs is None:
                    continue
                if attrs == "raw":
                    if not any(reads(x[1], key) for x in path.get("kind")):
                        return f"'{key}' isn't read"
                    continue
                values = [x[2] for x in path.get("set") if x[1] in attrs.split()]
                if not values or not any(reads(x, key) for x in values):
                    return f"'{key}' isn't read back"
                if required is False and any(subscript(x, key) for x in values):
                    return f"'{key}' is required though it isn't always written"
            return None

        return check

    for name, table in TABLES.items():
        short = name.split(".")[-1]
        each_return(ctx, rule, f"{short}/written", f"{name}.asdict", name, written(name, table), label=puts, opaque=("asdict",) if name != CHANNEL else ())
        each_return(ctx, rule, f"{short}/restored", f"{name}.init", name, restored(table), label=label, opaque=("set_default", "normalize", "int_from_dict", "bool_from_dict", "flag", "field", "pad"), cap=2)

    # An enumeration's items are written and read with the same table.
    def items(path):
        got = content(path).get("items")
        return None if got is not None and called(got, "asdict") else "the items aren't the registered ones"

    each_return(ctx, rule, "RuntimeEnum/items", f"{ENUM}.asdict", ENUM, items, label=puts, opaque=("asdict",))

    # Registries hold each item under its name.
    def registry(path):
        val = T.strip(path.val)
        if val[0] == "comp" and not val[2]:
            return None
        found.append(path)
        if val[0] == "comp":
            pair = val[2]
            if len(pair) == 1 and isinstance(pair[0], tuple) and pair[0][0] == "tuple":
                pair = pair[0][1]
            key, value = pair[0], pair[1]
            same = key[0] == "unpack" and key[-1] == 0 and called(value, "asdict") and value[3] == ("unpack", key[1], 1) and T.contains(key, lambda t: own(t, "items"))
            return None if same else "items aren't exported by their name"
        return None

    found: list = []
    tr = each_return(ctx, rule, "Registry/written", f"{REGISTRY}.asdict", REGISTRY, registry, label=puts, opaque=("asdict",))
    if tr is not None:
        ctx.ob(rule, "Registry/items", bool(found), "no item is exported", tr.func.where)

    def names(path):
        return None if own(T.strip(path.val), "_reverse") or T.contains(T.strip(path.val), lambda t: own(t, "_reverse") or own(t, "_mapping")) else "names aren't exported"

    each_return(ctx, rule, "names/written", "runtimepy.mapping.TwoWayNameMapping.asdict", "runtimepy.mapping.TwoWayNameMapping", names)

    # Integers and booleans have tables of their own.
    def kind_of(st):
        for atom, pol in facts_of(st):
            if atom[0] == "is" or atom[0] == "cmp" and atom[1] in ("is", "=="):
                text = str(atom)
                if "EnumType" in text and "'INT'" in text:
                    return pol
                if "EnumType" in text and "'BOOL'" in text:
                    return not pol
            if attr_of(atom, "is_integer") or called(atom, "is_integer"):
                return pol
            if attr_of(atom, "is_boolean") or called(atom, "is_boolean"):
                return not pol
        return None

    def tables(e):
        if e.kind == "store" and e.ev.kind == "sub" and T.strip(e.ev.name) == ("const", "str", "items"):
            kind = kind_of(e.st)
            for atom, pol in facts_of(e.st):
                if atom[0] == "isnone" and not pol and attr_of(atom[1], "_ints", "_bools"):
                    kind = attr_of(atom[1], "_ints")
            return ("items", T.strip(e.ev.value), kind)
        if e.kind == "store" and e.ev.kind == "attr" and e.ev.name in ("_ints", "_bools"):
            return ("table", e.ev.name, T.strip(e.ev.value), kind_of(e.st))
        return None

    def table_written(path):
        for _, val, kind in path.get("items"):
            names_ = ("ints", "_ints") if kind else ("bools", "_bools")
            if kind is None or not T.contains(val, lambda t, n=names_: attr_of(t, *n)):
                return "the items of another kind of enumeration are written"
        return None if path.has("items") else "no items are written"

    def table_read(path):
        last = {x[1]: x for x in path.get("table")}
        for name, kind in (("_ints", True), ("_bools", False)):
            if name not in last:
                return f"{name} isn't initialized"
            val, known = last[name][2], kind_of(path.st)
            empty = val == ("const", "NoneType", None)
            conv = "int_from_dict" if kind else "bool_from_dict"
            if known is None or empty != (known is not kind) or not empty and not called(val, conv):
                return "items of one kind are used for another"
        return None

    each_return(ctx, rule, "RuntimeEnum/kind", f"{ENUM}.asdict", ENUM, table_written, label=tables, opaque=("asdict",))
    each_return(ctx, rule, "RuntimeEnum/tables", f"{ENUM}.init", ENUM, table_read, label=tables, opaque=("int_from_dict", "bool_from_dict", "normalize"))

    # Defaults are kept, and applied to the primitive.
    def default(path):
        given = next((not pol for atom, pol in facts_of(path.st) if atom[0] == "isnone" and is_param(atom[1], "default")), None)
        sets = [x[2] for x in path.get("set") if x[1] == "default"]
        if given is None or bool(sets) != given or any(not is_param(x, "default") for x in sets):
            return "a default that's given isn't kept"
        some = given or next((not pol for atom, pol in facts_of(path.st) if atom[0] == "isnone" and attr_of(atom[1], "default")), None)
        if some is None or some != path.has("raw"):
            return "the default isn't the initial value"
        if any(not attr_of(x[1], "default") and not is_param(x[1], "default") for x in path.get("raw")):
            return "the initial value isn't the default"
        return None

    def label_default(e):
        if e.kind == "store" and e.ev.kind == "attr" and e.ev.name == "value" and attr_of(T.strip(e.ev.base), "raw"):
            return ("raw", T.strip(e.ev.value))
        return label(e)

    each_return(ctx, rule, "Channel/default", f"{CHANNEL}.set_default", CHANNEL, default, label=label_default, opaque=("valid_primitive",))

    # A channel's primitive, event and default belong together.
    def replace(path):
        kinds = [x[0] for x in path.labels]
        return None if kinds.count("raw") == 1 and "event" in kinds and "default" in kinds and kinds.index("raw") < kinds.index("default") else "the channel isn't updated for its new primitive"

    def label_replace(e):
        if e.kind == "store" and e.ev.kind == "attr":
            val = T.strip(e.ev.value)
            if e.ev.name == "raw" and is_param(val, "primitive"):
                return ("raw",)
            if e.ev.name == "primitive" and attr_of(T.strip(e.ev.base), "event") and (is_param(val, "primitive") or own(val, "raw")):
                return ("event",)
        if e.kind == "call" and e.ev.attr == "set_default" and not e.ev.args and not e.ev.kwargs:
            return ("default",)
        return None

    each_return(ctx, rule, "Channel/primitive", f"{CHANNEL}.update_primitive", CHANNEL, replace, label=label_replace, opaque=("set_default",))

    # Imported pairs keep their direction.
    for name, conv in (("int_from_dict", "int"), ("bool_from_dict", "bool")):
        func = ctx.anchor_func(rule, f"runtimepy.mapping.TwoWayNameMapping.{name}")
        if func is None:
            continue

        def label3(e):
            if e.kind == "store" and e.ev.kind == "sub":
                text = next((pol for atom, pol in facts_of(e.st) if atom[0] == "isinstance"), None)
                return ("put", T.strip(e.ev.base), T.strip(e.ev.name), T.strip(e.ev.value), text)
            if e.kind == "iterend":
                return [("end",), ("cut",)]
            return None

        tr = ctx.trace(func, label3, p.cls("runtimepy.mapping.TwoWayNameMapping"), cap=2)
        bad = None
        seen = set()
        for path in tr.ret:
            val = T.strip(path.val)
            kw = dict(val[5]) if val[0] == "call" else dict(val[4]) if val[0] == "new" and len(val) > 4 else {}
            for item in path.get("put"):
                text = item[4]
                if text is None:
                    bad = bad or ("names and values aren't distinguished", path)
                    continue
                seen.add(text)
                target = kw.get("reverse" if text else "mapping")
                if target is not None and not same_dict(item[1], target):
                    bad = bad or ("names and values are mixed up", path)
                value = item[3]
                want = conv if text else "str"
                if not (called(value, want) or value[0] == want or value[0] == "bool" and want == "bool" or want == "str" and value[0] in ("str", "fstr")):
                    bad = bad or (f"{T.path(value)} is stored", path)
            if path.count("end") > path.count("put"):
                bad = bad or ("an item is lost", path)
            if not {"mapping", "reverse"} <= set(kw):
                bad = bad or ("items are lost", path)
        ctx.ob(rule, f"items/{name}", bad is None and seen == {True, False}, bad[0] if bad else "items aren't imported", func.where, bad[1].show() if bad else ())


def same_dict(a, b) -> bool:
    return a[:1] == b[:1]


def each_lap(ctx, rule, key, qual, cls, source, check, label, opaque=(), need=(), outer=False):
    """A predicate holds for each iteration of the loop(s) over a source."""
    func = ctx.anchor_func(rule, qual)
    if func is None:
        return
    bad = []
    seen = set()

    def segment(path):
        if not any(x[0] == "end" and source(x[1]) for x in path.labels):
            return
        msg = check(path)
        seen.update(x[:2] for x in path.labels)
        if msg:
            bad.append((msg, path))

    def each(e):
        if e.kind == "iterend":
            # Laps of inner loops can be part of those of the outer one.
            return [("end", T.strip(e.term)), ("cut",)] if not outer or source(T.strip(e.term)) else None
        return label(e)

    ctx.trace(func, each, ctx.p.cls(cls) if cls else None, opaque=opaque_names(*opaque), restart="cut", segment=segment, cap=3)
    if not seen and any(isinstance(n, (ast.ListComp, ast.DictComp, ast.GeneratorExp, ast.SetComp)) for n in ast.walk(func.node)) and not any(isinstance(n, (ast.For, ast.While)) for n in ast.walk(func.node)):
        return
    ctx.ob(rule, key, not bad and bool(seen), bad[0][0] if bad else "no item is processed", func.where, bad[0][1].show() if bad else ())
    for item in need:
        ctx.ob(rule, f"{key}/{item[1]}", any(x[: len(item)] == item for x in seen), f"there's no {item[1]}", func.where)


def subscript(term, key: str) -> bool:
    return T.contains(term, lambda t: isinstance(t, tuple) and len(t) > 2 and t[0] == "sub" and t[2] == ("const", "str", key))


FIELD_TABLE = {
    "name": (("name",), True, False),
    "index": (("index",), True, False),
    "width": (("width",), True, False),
    "value": ((), True, False),
    "enum": (("_enum", "enum"), False, False),
    "commandable": (("commandable",), False, True),
    "description": (("description",), False, True),
}


def fields(ctx, rule) -> None:
    def written(path):
        got = content(path)
        for key, (attrs, required, empty) in FIELD_TABLE.items():
            if key not in got:
                if required or not absent(path.st, *attrs, falsy=empty):
                    return f"'{key}' isn't written"
                continue
            val = got[key]
            if key == "commandable" and val == ("const", "bool", True):
                if not any(pol and attr_of(atom, "commandable") for atom, pol in facts_of(path.st)):
                    return "every field becomes commandable"
                continue
            if key == "value":
                if not (val[0] == "call" and (val[2].endswith("__call__") or val[2] in ("?call", "?"))) and not T.contains(val, lambda t: own(t, "raw", "value")):
                    return "'value' isn't the field's value"
                continue
            if not T.contains(val, lambda t, a=attrs: attr_of(t, *a)):
                return f"'{key}' isn't the field's {attrs[0]}"
        if set(got) - set(FIELD_TABLE):
            return f"{sorted(set(got) - set(FIELD_TABLE))} aren't read back"
        return None

    each_return(ctx, rule, "BitField/written", f"{FIELD}.asdict", FIELD, written, label=puts, opaque=("__call__",))

    # Each item is written, padding with its width.
    def label(e):
        if e.kind == "call" and e.ev.attr == "append" and e.ev.args:
            padding = next((pol for atom, pol in facts_of(e.st) if atom[0] == "isinstance"), None)
            return ("item", {True: "padding", False: "field"}.get(padding), T.strip(e.ev.args[0]))
        return None

    def all_items(path):
        if path.count("item") != 1:
            return "an item isn't written once"
        for _, kind, item in path.get("item"):
            if kind is None:
                return "padding isn't distinguished"
            if kind == "padding":
                got = pairs(item)
                ok = set(got) == {"index", "width", "value"} and got["index"][0] == "unpack" and got["index"][-1] == 0 and entry(got["width"], 0) and entry(got["value"], 1)
                if not ok:
                    return "padding isn't written with its position, width and value"
            elif not called(item, "asdict"):
                return "a field isn't written"
        return None

    def entry(term, index):
        return term[0] in ("unpack", "sub", "sel") and (term[-1] == index or term[2] == ("const", "int", index) or term[2] == index)

    each_lap(ctx, rule, "BitFields/items", f"{FIELDS}.asdict", FIELDS, lambda t: T.contains(t, lambda x: own(x, "by_index")), all_items, label, ("asdict",), (("item", "padding"), ("item", "field")))

    # Items are restored at their position.
    def label2(e):
        if e.kind == "call" and e.ev.attr in ("flag", "field", "pad") and e.ev.recv is not None and is_self(T.strip(e.ev.recv)):
            one = next((pol for atom, pol in facts_of(e.st) if atom[0] == "cmp" and atom[1] == "==" and ("const", "int", 1) in atom[2:4]), None)
            names = {"flag": ("name", "index"), "field": ("name", "width", "index"), "pad": ("width", "index")}[e.ev.attr]
            given = dict(zip(names, (T.strip(x) for x in e.ev.args)))
            given.update({k: T.strip(v) for k, v in e.ev.kwargs.items()})
            unnamed = next((not pol for atom, pol in facts_of(e.st) if reads(atom, "name") and atom[0] != "isnone"), None)
            return ("make", e.ev.attr, tuple(sorted(given.items(), key=lambda x: str(x[0]))), one, unnamed)
        if e.kind == "call" and e.ev.attr == "__call__" and e.ev.recv is not None and e.ev.args:
            return ("value", T.strip(e.ev.recv), T.strip(e.ev.args[0]))
        if e.kind == "store" and e.ev.kind == "sub" and T.strip(e.ev.name) == ("const", "str", "index"):
            return ("index", T.strip(e.ev.value))
        return None

    def restored(path):
        made = path.get("make")
        if len(made) != 1:
            return "an item isn't restored once"
        for item in made:
            given = dict(item[2])
            kind = item[1]
            want = {"flag": ("name", "index", "enum", "description", "commandable"), "field": ("name", "width", "index", "enum", "description", "commandable"), "pad": ("width", "index")}[kind]
            for key in want:
                if not reads(given.get(key), key):
                    return f"{key} isn't restored"
                if key in ("enum", "description", "commandable") and subscript(given[key], key):
                    return f"'{key}' is required though it isn't always written"
            if (kind == "pad") != bool(item[4]):
                return "padding and fields are mixed up"
            if kind != "pad" and (item[3] is None or item[3] != (kind == "flag")):
                return "flags and fields are mixed up"
        real = [x for x in made if x[1] != "pad"]
        values = path.get("value")
        if len(values) != len(real) or any(not reads(x[2], "value") or not called(x[1], "flag") and not called(x[1], "field") for x in values):
            return "the value isn't restored"
        if path.count("index") != len(made):
            return "the position isn't kept for later"
        return None

    each_lap(ctx, rule, "BitFields/restored", f"{FIELDS}.init", FIELDS, lambda t: reads(t, "fields"), restored, label2, ("flag", "field", "pad", "__call__", "normalize"), (("make", "flag"), ("make", "field"), ("make", "pad")))

    # Nothing is finalized before it's loaded.
    def label3(e):
        if e.kind == "store" and e.ev.kind == "attr" and e.ev.name == "_finalized":
            return ("final", T.strip(e.ev.value))
        if e.kind == "call" and e.ev.attr in ("flag", "field", "pad"):
            return ("make",)
        return None

    def last(path):
        items = path.get("final")
        if not items or not reads(items[-1][1], "finalized"):
            return "it isn't restored whether fields can be added"
        if path.has("make"):
            make = [i for i, x in enumerate(path.labels) if x[0] == "make"]
            if any(i < make[-1] and x[0] == "final" and x[1] != ("const", "bool", False) for i, x in enumerate(path.labels)):
                return "fields are finalized before they're loaded"
        return None

    each_return(ctx, rule, "BitFields/final", f"{FIELDS}.init", FIELDS, last, label=label3, opaque=("flag", "field", "pad", "__call__", "normalize"), cap=2)


PARTS = ("channels", "enums", "fields", "names", "values")


def environments(ctx, rule) -> None:
    def part_ok(key, term) -> bool:
        if key in ("channels", "enums", "fields"):
            return called(term, "asdict") and own(term[3], key)
        if key == "values":
            return called(term, "values") and T.contains(term, lambda t: is_param(t, "resolve_enum"))
        if key == "names":
            inner = pairs(term)
            return set(inner) == {"channels", "enums"} and all(called(v, "asdict") and own(v[3], k, "names") for k, v in inner.items())
        return False

    def exported(path):
        got = content(path)
        for key in PARTS:
            if key not in got:
                return f"'{key}' aren't exported"
            if not part_ok(key, got[key]):
                return f"'{key}' aren't the environment's {key}"
        return None

    each_return(ctx, rule, "export_json", f"{FILE_ENV}.export_json", FILE_ENV, exported, label=puts, opaque=("finalize", "asdict", "values"))

    def label(e):
        if e.kind == "call" and (e.ev.attr == "encode" or e.ev.name and e.ev.name.endswith(".encode")):
            args = tuple(T.strip(x) for x in e.ev.args)
            return ("encode", T.strip(e.ev.recv) if e.ev.recv is not None else None, args)
        if e.kind == "call" and e.ev.attr == "load_name_to_key":
            return ("names", T.strip(e.ev.recv), T.strip(e.ev.args[0]))
        if e.kind == "call" and e.ev.attr == "finalize":
            return ("finalize",)
        if e.kind == "call" and e.ev.name and e.ev.name.endswith("FileChannelEnvironment") or e.kind == "call" and e.ev.name in ("?call", "cls"):
            return ("new", tuple((k, T.strip(v)) for k, v in e.ev.kwargs.items()))
        return None

    def files(path):
        seen = set()
        for item in path.get("encode"):
            recv, args = item[1], item[2]
            for key in PARTS:
                if not args or not is_param(args[0], key):
                    continue
                if key in ("channels", "enums", "fields"):
                    if own(recv, key):
                        seen.add(key)
                elif len(args) > 1 and part_ok(key, args[1]):
                    seen.add(key)
        lost = set(PARTS) - seen
        return f"{sorted(lost)} aren't written to their file" if lost else None

    each_return(ctx, rule, "export", f"{FILE_ENV}.export", FILE_ENV, files, label=label, opaque=("finalize", "asdict", "values", "encode"))

    def loaded(source):
        def check(path):
            val = T.strip(path.val)
            kw = dict(val[5]) if val[0] == "call" else dict(val[4]) if val[0] == "new" else {}
            names = {}
            for item in path.get("names"):
                for key in ("channels", "enums"):
                    if called(item[1][1] if item[1][0] == "attr" else item[1], "create") or True:
                        if kw.get(key) is not None and item[1] == ("attr", kw[key], "names", ()) or item[1][0] == "attr" and item[1][1] == kw.get(key):
                            if reads(item[2], key):
                                names[key] = True
            for key in ("channels", "enums", "fields", "values"):
                if key not in kw:
                    return f"{key} aren't loaded"
                if not source(kw[key], key) and not (key == "values" and kw[key][0] == "const" and kw[key][2] is None):
                    return f"{key} aren't loaded from what was exported"
                if key == "values" and kw[key][0] == "const" and not any(called(atom, "is_file") and not pol for atom, pol in facts_of(path.st)):
                    return "values that were exported aren't loaded"
            if set(names) != {"channels", "enums"}:
                return "names and identifiers aren't loaded"
            wanted = next((pol for atom, pol in facts_of(path.st) if is_param(atom, "finalize")), None)
            if wanted != path.has("finalize"):
                return "the environment isn't finalized when it should be"
            return None

        return check

    def from_data(term, key):
        return reads(term, key, lambda t: is_param(t, "data"))

    def from_file(term, key):
        return T.contains(term, lambda t: is_param(t, key)) and T.contains(term, lambda t: called(t, "decode") or called(t, "fields_from_file") or called(t, "_fields_from_file"))

    opq = ("finalize", "create", "decode", "load_name_to_key", "__init__", "fields_from_dict", "fields_from_file")
    each_return(ctx, rule, "load_json", f"{FILE_ENV}.load_json", FILE_ENV, loaded(from_data), label=label, opaque=opq)
    tr = each_return(ctx, rule, "load", f"{FILE_ENV}.load", FILE_ENV, loaded(from_file), label=label, opaque=opq)
    if tr is not None:
        ok = any(not (v[0] == "const") for x in tr.ret for k, v in (dict(T.strip(x.val)[4]) if T.strip(x.val)[0] == "new" else dict(T.strip(x.val)[5])).items() if k == "values")
        ctx.ob(rule, "load/values", ok, "values are never loaded", tr.func.where)

    # Directories use the same file for the same part.
    def label2(e):
        if e.kind == "call" and e.ev.attr in ("export", "load"):
            return ("files", tuple((k, T.strip(v)) for k, v in e.ev.kwargs.items()))
        return None

    where = {}
    for name in ("export_directory", "load_directory"):
        func = ctx.anchor_func(rule, f"{FILE_ENV}.{name}")
        if func is None:
            continue
        tr = ctx.trace(func, label2, ctx.p.cls(FILE_ENV), opaque=opaque_names("export", "load"))
        for path in tr.ret:
            for item in path.get("files"):
                where.setdefault(name, dict(item[1]))
    if len(where) == 2:
        for key in PARTS:
            a, b = (file_of(where[x].get(key)) for x in ("export_directory", "load_directory"))
            ctx.ob(rule, f"directory/{key}", a is not None and a == b, f"{key} are loaded from another file than they're exported to", FILE_ENV)
        used = [file_of(where["export_directory"].get(key)) for key in PARTS]
        ctx.ob(rule, "directory/distinct", len(set(used)) == len(used), "parts are exported to the same file", FILE_ENV)
    else:
        ctx.ob(rule, "directory", False, "directories aren't exported and loaded", FILE_ENV)

    # Values are the ones of all channels, except numbers that aren't.
    def values(e):
        if e.kind == "store" and e.ev.kind == "sub":
            return ("put", T.strip(e.ev.name), T.strip(e.ev.value))
        return None

    def value(path):
        for item in path.get("put"):
            if not (called(item[2], "value") and item[2][4] and item[2][4][0] == item[1]):
                return "a value isn't the one of its channel"
        if not path.has("put") and not any("isnan" in str(atom) and pol for atom, pol in facts_of(path.st)):
            return "a channel's value is left out"
        return None

    each_lap(ctx, rule, "values", f"{BASE_ENV}.values", BASE_ENV, lambda t: True, value, values, ("value",))

    def applied(e):
        if e.kind == "call" and e.ev.attr == "set" and is_self(T.strip(e.ev.recv)):
            return ("set", *(T.strip(x) for x in e.ev.args))
        return None

    def apply(path):
        sets = path.get("set")
        if len(sets) != 1:
            return "a value isn't applied"
        ok = all(len(x) == 3 and x[1][0] == "unpack" and x[1][-1] == 0 and x[2][0] == "unpack" and x[2][-1] == 1 and x[1][1] == x[2][1] for x in sets)
        return None if ok else "a value is applied to another channel"

    each_lap(ctx, rule, "apply", f"{BASE_ENV}.apply", BASE_ENV, lambda t: T.contains(t, lambda x: is_param(x, "values")), apply, applied, ("set",))


def file_of(term):
    """The file name joined to a path."""
    if term is None:
        return None
    if term[0] == "call" and term[2].split(".")[-1] == "joinpath":
        return str(term[4])
    if term[0] == "bin" and term[1] == "/":
        return str(term[3])
    return str(term)


def protocols(ctx, rule) -> None:
    p = ctx.p

    # Fields of a protocol.
    def spec(path):
        got = content(path)
        for key in ("name", "kind", "array_length", "enum"):
            if key not in got:
                if key in ("enum", "array_length") and absent(path.st, key, falsy=False):
                    continue
                return f"'{key}' isn't written"
            if not T.contains(got[key], lambda t, k=key: attr_of(t, k)):
                return f"'{key}' isn't the field's {key}"
        return f"{sorted(set(got))} are written" if set(got) - {"name", "kind", "array_length", "enum"} else None

    each_return(ctx, rule, "FieldSpec/written", f"{SPEC}.asdict", SPEC, spec, label=puts, opaque=("create", "_create"))

    # Managers of bit-fields.
    keys = {"names": ("registry", "lookup"), "enums": ("enums",), "fields": (), "values": ()}

    def manager(path):
        got = content(path)
        for key, attrs in keys.items():
            if key not in got:
                return f"'{key}' aren't exported"
            val = got[key]
            if key == "fields" and not (called(val, "asdict") and is_self(val[3])) or key == "values" and not (called(val, "values") and T.contains(val, lambda t: is_param(t, "resolve_enum"))):
                return f"'{key}' aren't the exported ones"
            if attrs and val[0] == "comp" and val[2] and not T.contains(val, lambda t, a=attrs: own(t, *a[:1])):
                return f"'{key}' aren't the used ones"
        return None

    each_return(ctx, rule, "manager/export", f"{MANAGER}.export_json", MANAGER, manager, label=puts, opaque=("asdict", "values", "identifier"))

    def label(e):
        if e.kind == "call" and e.ev.attr == "set":
            return ("set", *(T.strip(x) for x in e.ev.args))
        if e.kind == "store" and e.ev.kind == "sub":
            return ("put", T.strip(e.ev.base), T.strip(e.ev.name), T.strip(e.ev.value))
        if e.kind == "call" and e.ev.name and e.ev.name.endswith("FieldSpec"):
            return ("spec", tuple(T.strip(x) for x in e.ev.args), tuple((k, T.strip(v)) for k, v in e.ev.kwargs.items()))
        return None

    def arguments(val):
        if val[0] == "new":
            return tuple(val[3]), dict(val[4]) if len(val) > 4 else {}
        return tuple(val[4]), dict(val[5])

    def pair_ok(item):
        return len(item) == 3 and item[1][0] == "unpack" and item[1][-1] == 0 and item[2][0] == "unpack" and item[2][-1] == 1

    def manager_import(path):
        val = T.strip(path.val)
        args, kw = arguments(val)
        given = dict(zip(("registry", "enums", "fields"), args))
        given.update(kw)
        for key, source in (("registry", "names"), ("enums", "enums"), ("fields", "fields")):
            if not reads(given.get(key), source):
                return f"'{source}' aren't imported"
        return None

    def restored(path):
        ok = path.count("set") == 1 and all(pair_ok(x) for x in path.get("set"))
        return None if ok else "a value isn't restored"

    opq = ("set", "create", "fields_from_dict", "__init__")
    each_return(ctx, rule, "manager/import", f"{MANAGER}.import_json", MANAGER, manager_import, label=label, opaque=opq)
    each_lap(ctx, rule, "manager/values", f"{MANAGER}.import_json", MANAGER, lambda t: reads(t, "values"), restored, label, opq)

    # Protocols.
    def label2(e):
        if e.kind == "store" and e.ev.kind == "sub":
            return ("put", T.strip(e.ev.base), T.strip(e.ev.name), T.strip(e.ev.value))
        if e.kind == "call" and e.ev.attr == "update" and e.ev.recv is not None:
            return ("merge", T.strip(e.ev.recv), tuple(T.strip(x) for x in e.ev.args))
        if e.kind == "call" and e.ev.attr == "append" and e.ev.args:
            kind = next((pol for atom, pol in facts_of(e.st) if atom[0] == "isinstance"), None)
            return ("build", T.strip(e.ev.args[0]), kind)
        return None

    def export(path):
        got = {x[2][2]: x[3] for x in path.get("put") if x[2][0] == "const"}
        meta = pairs(got.get("meta"))
        if not own(meta.get("id"), "id") or not T.contains(meta.get("byte_order", ("?",)), lambda t: own(t, "array", "byte_order")):
            return "identifier and byte order aren't exported"
        if "build" not in got:
            return "the layout isn't exported"
        base = next((x[1] for x in path.get("put") if x[2] == ("const", "str", "meta")), None)
        if not called(base, "export_json") or not T.contains(base, lambda t: is_param(t, "resolve_enum")):
            return "bit-fields are exported differently"
        if T.strip(path.val) != base:
            return "something else is returned"
        merged = [x[1] for x in path.get("merge")]
        for key in ("names", "enums"):
            if not any(reads(x, key) for x in merged):
                return f"{key} of regular fields aren't exported"
        return None

    def layout(path):
        for item in path.get("build"):
            ok = called(item[1], "asdict") if item[2] is False else item[1][0] != "call"
            if not ok:
                return "an item of the layout isn't exported"
        return None if path.count("build") == 1 else "an item of the layout isn't exported once"

    def regular(path):
        for item in path.get("put"):
            if called(item[3], "value"):
                return None if item[3][4][0] == item[2] and reads(item[1], "values") else "the value of another field is exported"
        return "the value of a regular field isn't exported"

    opq = ("export_json", "value", "asdict", "identifier")
    each_return(ctx, rule, "protocol/export", f"{JSON}.export_json", JSON, export, label=label2, opaque=opq)
    each_lap(ctx, rule, "protocol/build", f"{JSON}.export_json", JSON, lambda t: own(t, "_build"), layout, label2, opq)
    each_lap(ctx, rule, "protocol/values", f"{JSON}.export_json", JSON, lambda t: own(t, "_regular_fields"), regular, label2, opq)

    def imported(path):
        val = T.strip(path.val)
        args, kw = arguments(val)
        given = dict(zip(("enum_registry", "names", "fields", "build", "identifier", "byte_order"), args))
        given.update(kw)
        fields_ = given.get("fields")
        if not called(fields_, "import_json"):
            return "bit-fields aren't imported"
        if given.get("enum_registry") != ("attr", fields_, "enums", ()) or given.get("names") != ("attr", fields_, "registry", ()):
            return "names and enumerations aren't the imported ones"
        if not reads(given.get("identifier"), "id") or not reads(given.get("byte_order"), "byte_order") or "build" not in given:
            return "identifier, byte order or layout aren't imported"
        return None

    def spec_imported(path):
        for item in path.get("spec"):
            spec_ = dict(zip(("name", "kind", "enum", "array_length"), item[1]))
            spec_.update(dict(item[2]))
            for key in ("name", "kind", "enum", "array_length"):
                if not reads(spec_.get(key), key):
                    return f"a field's {key} isn't imported"
                if key in ("enum", "array_length") and subscript(spec_[key], key):
                    return f"a field's {key} is required"
        return None

    def label3(e):
        if e.kind == "call" and e.ev.attr == "append" and e.ev.args:
            return ("build", T.strip(e.ev.args[0]), next((pol for atom, pol in facts_of(e.st) if atom[0] == "isinstance"), None))
        return None

    def build_imported(path):
        if path.count("build") != 1:
            return "an item of the layout isn't imported once"
        _, val, kind = path.get("build")[0]
        return None if kind is not None and (val[0] in ("new", "call")) != kind else "an item of the layout isn't what was exported"

    each_lap(ctx, rule, "protocol/layout", f"{JSON}.import_json", JSON, lambda t: reads(t, "build"), build_imported, label3, ("import_json", "__init__", "__setitem__"))

    def value_imported(path):
        values = [x for x in path.get("put") if x[1][0] in ("new", "call")]
        if len(values) != 1:
            return "a value isn't restored"
        return None if all(pair_ok((0, x[2], x[3])) for x in values) else "a value is restored for another field"

    opq = ("import_json", "__init__", "__setitem__")
    each_return(ctx, rule, "protocol/import", f"{JSON}.import_json", JSON, imported, label=label, opaque=opq)
    tr = each_return(ctx, rule, "protocol/specs", f"{JSON}.import_json", JSON, spec_imported, label=label, opaque=opq, cap=3)
    if tr is not None:
        ctx.ob(rule, "protocol/fields", any(x.has("spec") for x in tr.ret), "fields are never imported", tr.func.where)
    each_lap(ctx, rule, "protocol/restored", f"{JSON}.import_json", JSON, lambda t: reads(t, "values"), value_imported, label, opq)

    # Everything that's added is part of the layout.
    def label4(e):
        if e.kind == "call" and e.ev.attr == "append" and e.ev.recv is not None and own(T.strip(e.ev.recv), "_build"):
            return ("build", T.strip(e.ev.args[0]))
        if e.kind == "call" and e.ev.attr in ("add", "add_to_end") and e.ev.recv is not None and own(T.strip(e.ev.recv), "array"):
            return ("array", T.strip(e.ev.args[0]))
        if e.kind == "store" and e.ev.kind == "sub" and own(T.strip(e.ev.base), T.strip(e.ev.base)[2] if T.strip(e.ev.base)[0] == "attr" else "?"):
            return ("keep", T.strip(e.ev.base)[2], T.strip(e.ev.name), T.strip(e.ev.value))
        return None

    def added(path):
        track = next((pol for atom, pol in facts_of(path.st) if is_param(atom, "track")), True)
        arrays, builds = path.get("array"), path.get("build")
        if not arrays and called(T.strip(path.val), "add_serializable"):
            return None
        if len(arrays) != 1:
            return "the field isn't part of the data"
        if len(builds) != (1 if track else 0):
            return "the field isn't part of the layout"
        return None

    for name in ("add_field", "add_serializable", "_add_bit_fields"):
        each_return(ctx, rule, f"layout/{name}", f"{PROTOCOL}.{name}", PROTOCOL, added, label=label4, opaque=("register_name", "add", "add_to_end", "add_serializable", "create"))

    def field_spec(path):
        for item in path.get("build"):
            val = item[1]
            if val[0] not in ("new", "call"):
                return "the field isn't described"
            args, kw = arguments(val)
            given = dict(zip(("name", "kind", "enum", "array_length"), args))
            given.update(kw)
            for key in ("name", "enum", "array_length"):
                if not is_param(given.get(key), key):
                    return f"the field is described without its {key}"
        kept = [x for x in path.get("keep") if x[1] == "_regular_fields"]
        if path.has("array") and (len(kept) != 1 or not is_param(kept[0][2], "name") or kept[0][3] != path.get("array")[0][1]):
            return "the field isn't known by its name"
        return None

    each_return(ctx, rule, "layout/field", f"{PROTOCOL}.add_field", PROTOCOL, field_spec, label=label4, opaque=("register_name", "add", "add_to_end", "add_serializable", "create"))
    del p


def copies(ctx, rule) -> None:
    """Copies pass on every argument of the constructor."""
    p = ctx.p
    # Attributes that hold the arguments.
    held = {
        PROTOCOL: {
            "enum_registry": (("_enum_registry",),),
            "names": (("names",),),
            "fields": (("_fields",),),
            "build": (("_build",),),
            "identifier": (("id",),),
            "byte_order": (("array", "byte_order"),),
            "serializables": (("serializables",),),
            "array_lengths": (("_array_lengths",),),
        },
        MANAGER_BASE: {"registry": (("registry",),), "enums": (("enums",),), "fields": (("fields",),)},
    }
    for qual, table in held.items():
        cls = ctx.anchor_cls(rule, qual)
        if cls is None:
            continue
        init = p.lookup(cls, "__init__")
        params = [a.arg for a in init.node.args.args[1:] + init.node.args.kwonlyargs]

        def copied(path, table=table, params=params):
            val = T.strip(path.val)
            if val[0] == "new":
                args, kw = tuple(val[3]), dict(val[4]) if len(val) > 4 else {}
            elif val[0] == "call":
                args, kw = tuple(val[4]), dict(val[5])
            else:
                return f"{T.path(val)} is returned"
            given = dict(zip(params, args))
            given.update(kw)
            for name in params:
                if name not in given:
                    return f"{name} isn't copied"
                attrs = table.get(name)
                if attrs and not T.contains(given[name], lambda t, a=attrs: any(own(t, *x) for x in a)):
                    return f"{name} isn't copied from this object"
            for name in ("fields", "serializables"):
                if name in given and (own(given[name], name) or own(given[name], "_" + name)):
                    return f"{name} are shared with the copy"
            return None

        each_return(ctx, rule, f"copy/{qual.split('.')[-1]}", f"{qual}.__copy__", qual, copied, opaque=("copy_without_chain", "copy", "__copy__"))


def charset(pattern: str):
    """The characters that a pattern of the form ^[...]+$ accepts."""
    got = re.fullmatch(r"\^(\[.*\]|\\w)\+\$", pattern)
    if got is None:
        return None
    single = re.compile(got.group(1))
    return {chr(c) for c in range(0x250) if single.fullmatch(chr(c))}


def schemas(ctx, rule) -> None:
    import yaml

    p = ctx.p
    root = os.path.join(p.root, "runtimepy", "data", "schemas")

    def schema(name):
        path = os.path.join(root, name + ".yaml")
        if not os.path.isfile(path):
            ctx.ob(rule, f"schema/{name}", False, "the schema is missing", path)
            return None
        with open(path, encoding="utf-8") as stream:
            return yaml.safe_load(stream)

    # Patterns of names that the code accepts.
    regex = {}
    module = p.modules.get("runtimepy.mixins.regex")
    if module is not None:
        for node in module.tree.body:
            if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and isinstance(node.value, ast.Call) and node.value.args and isinstance(node.value.args[0], ast.Constant):
                regex[node.targets[0].id] = node.value.args[0].value
    ctx.ob(rule, "patterns", {"DEFAULT_PATTERN", "CHANNEL_PATTERN"} <= set(regex), "patterns of names aren't found", "runtimepy/mixins/regex.py")
    if not {"DEFAULT_PATTERN", "CHANNEL_PATTERN"} <= set(regex):
        return

    def covers(key, pattern, name, where):
        want, got = charset(regex[name]), charset(pattern or "")
        if want is None or got is None:
            # Something else than a set of characters can't be compared.
            return
        lost = "".join(sorted(want - got))
        ctx.ob(rule, f"name/{key}", not lost, f"names with one of '{lost[:40]}' can be exported, but not imported", where)

    channels = schema("ChannelRegistry")
    if channels is not None:
        for pattern in channels.get("patternProperties", {}):
            covers("channel", pattern, "CHANNEL_PATTERN", "runtimepy/data/schemas/ChannelRegistry.yaml")
    enums = schema("EnumRegistry")
    if enums is not None:
        for pattern in enums.get("patternProperties", {}):
            covers("enum", pattern, "DEFAULT_PATTERN", "runtimepy/data/schemas/EnumRegistry.yaml")
    tables = {"Channel": set(TABLES[CHANNEL]), "RuntimeEnum": set(TABLES[ENUM]), "BitFields": set(TABLES[FIELDS])}
    required = {"Channel": {k for k, v in TABLES[CHANNEL].items() if v[1]}, "RuntimeEnum": {k for k, v in TABLES[ENUM].items() if v[1]}, "BitFields": set(TABLES[FIELDS])}
    for name, keys in tables.items():
        data = schema(name)
        if data is None:
            continue
        where = f"runtimepy/data/schemas/{name}.yaml"
        allowed = set(data.get("properties", {}))
        if data.get("includes"):
            for item in data["includes"]:
                extra = schema(item.replace(".yaml", ""))
                allowed |= set((extra or {}).get("properties", {}))
        strict = data.get("additionalProperties") is False
        ctx.ob(rule, f"keys/{name}", not strict or keys <= allowed, f"{sorted(keys - allowed)} are exported, but not accepted", where)
        extra_required = set(data.get("required", [])) - required[name]
        ctx.ob(rule, f"required/{name}", not extra_required, f"{sorted(extra_required)} are required, but not always exported", where)
        if name == "RuntimeEnum":
            for pattern in data["properties"].get("items", {}).get("patternProperties", {}):
                covers("enum-items", pattern, "DEFAULT_PATTERN", where)
            refs = []
        elif name == "Channel":
            refs = [data["properties"].get("enum", {})]
        else:
            item = data["properties"]["fields"]["items"]
            allowed = set(item["properties"])
            ctx.ob(rule, "keys/fields", item.get("additionalProperties") is not False or set(FIELD_TABLE) <= allowed, f"{sorted(set(FIELD_TABLE) - allowed)} are exported, but not accepted", where)
            extra_required = set(item.get("required", [])) - {"index", "width", "value"}
            ctx.ob(rule, "required/fields", not extra_required, f"{sorted(extra_required)} are required, but not always exported", where)
            covers("field", item["properties"]["name"].get("pattern"), "CHANNEL_PATTERN", where)
            refs = [item["properties"].get("enum", {})]
        for ref in refs:
            for option in ref.get("oneOf", [ref]):
                if option.get("type") == "string" and "pattern" in option:
                    covers(f"{name}.enum", option["pattern"], "DEFAULT_PATTERN", where)

"""C31: values are written to and read from what's named."""

from __future__ import annotations

import ast

from sa import terms as T
from sa.props.c06 import arg, attr_of, each_return, is_self, own
from sa.props.c09 import each_lap
from sa.props.c11 import called, entry, mine, param
from sa.props.c23 import truth
from sa.props.common import facts_of, is_param

ENV = "runtimepy.channel.environment.base.BaseChannelEnvironment"
CREATE = "runtimepy.channel.environment.create.CreateChannelEnvironment"
MANAGER = "runtimepy.primitives.field.manager.base.BitFieldsManagerBase"
LEVEL = "proof"
EXPLANATION = (
    "Every path of the methods that write, read, list and look up values of an environment is enumerated: which object is written or read, "
    "what's written (depending on the kind of the channel and its enumeration), and what's provided."
)
OPAQUE = (
    "get", "set", "has_field", "get_field", "get_bool", "get_int", "get_str", "parse", "value", "age_ns", "name", "__getitem__", "field_or_channel", "exists", "get_fields", "namespace", "channel",
    "set_min_period", "apply",
)


def run(ctx) -> None:
    R1 = ctx.rule("R1", "A value that's set is written to the field or channel with that key, once, as the enumeration and kind of channel demand, or there's an error.")
    R2 = ctx.rule("R2", "A value is read from the field or channel with that key, scaled and named by its enumeration as requested.")
    R3 = ctx.rule("R3", "All values are listed under their names, and all that are given are applied.")
    R4 = ctx.rule("R4", "Lookups find what there is: fields, channels and the groups of channels of a type.")
    setting(ctx, R1)
    reading(ctx, R2)
    listing(ctx, R3)
    finding(ctx, R4)


def keyed(term, name="key") -> bool:
    """What the environment has for a key (the channel and its enumeration)."""
    if term is None:
        return False
    if term[0] == "sub":
        return is_self(term[1]) and is_param(term[2], name)
    return called(term, "get") and is_self(term[3]) and bool(term[4]) and is_param(term[4][0], name) or called(term, "__getitem__") and is_self(term[3]) and is_param(term[4][0], name)


def piece(term, index: int, name="key") -> bool:
    if term is None:
        return False
    if term[0] == "unpack":
        return term[2] == index and keyed(term[1], name)
    return term[0] == "sub" and term[2][0] == "const" and term[2][2] == index and keyed(term[1], name)


def raw_of(term, name="key") -> bool:
    return attr_of(term, "raw") and piece(term[1], 0, name)


def fields_call(term, meth: str) -> bool:
    return called(term, meth) and term[3] is not None and own(term[3], "fields")


def is_field(st, name="key"):
    """Whether a key is known to be a field's."""
    return truth(st, lambda a: fields_call(a, "has_field") and is_param(a[4][0], name))


def looks(e):
    if e.kind == "sub" and is_self(T.strip(e.term[0])) or e.kind == "call" and e.ev.attr == "__getitem__" and e.ev.recv is not None and is_self(T.strip(e.ev.recv)):
        return ("lookup",)
    return None


def scaled(st):
    return truth(st, lambda a: is_param(a, "scaled"))


def known_none(st, pred):
    for atom, pol in facts_of(st):
        if atom[0] == "isnone" and pred(atom[1]):
            return pol
        if pred(atom) and pol:
            return False
    return None


def setting(ctx, rule) -> None:
    def label(e):
        if e.kind == "store" and e.ev.kind == "attr" and e.ev.base is not None:
            return ("store", T.strip(e.ev.base), e.ev.name, T.strip(e.ev.value))
        if looks(e):
            return looks(e)
        if e.kind == "call" and e.ev.attr == "set" and e.ev.recv is not None and own(T.strip(e.ev.recv), "fields"):
            return ("field", tuple(T.strip(x) for x in e.ev.args), tuple((k, T.strip(v)) for k, v in e.ev.kwargs.items() if k))
        return None

    def written(path):
        stores, fields = [x for x in path.get("store")], path.get("field")
        field = is_field(path.st)
        if field is None:
            return "it isn't known if the key is a field's"
        if field:
            if path.has("lookup"):
                return "a channel with the name of a field is looked up"
            if len(fields) != 1 or stores:
                return "a field isn't set once"
            given = dict(zip(("key", "value", "scaled"), fields[0][1]))
            given.update(dict(fields[0][2]))
            if not is_param(given.get("key"), "key") or not is_param(given.get("value"), "value"):
                return "a field is set to something else"
            return None
        if fields or len(stores) != 1:
            return "a channel isn't written once"
        base, name, value = stores[0][1:]
        if not raw_of(base):
            return f"{T.path(base)} is written"
        how = scaled(path.st)
        if how is None or name != ("scaled" if how else "value"):
            return "a scaled value is written as raw value, or the other way around"
        text = next((pol for atom, pol in facts_of(path.st) if atom[0] == "isinstance" and is_param(atom[1], "value") and "str" in str(atom[2])), None)
        if text is None:
            return "it isn't known if the value is text"
        if not text:
            return None if is_param(value, "value") else "another value is written"
        if is_param(value, "value"):
            return "text is written"
        if not T.contains(value, param("value")):
            return "something else than the value is written"
        none = known_none(path.st, lambda t: piece(t, 1))
        if none is None:
            return "it isn't known if there's an enumeration"
        if none:
            if value[0] == "call" and value[2] in ("int", "float") and len(value[4]) == 1 and is_param(value[4][0], "value"):
                if truth(path.st, lambda a: attr_of(a, "is_integer") and T.contains(a, raw_of)) is not True and truth(path.st, lambda a: attr_of(a, "is_float") and T.contains(a, raw_of)) is not True:
                    return "a number is written to a boolean"
                whole = truth(path.st, lambda a: attr_of(a, "is_integer") and T.contains(a, raw_of))
                scale = truth(path.st, lambda a: attr_of(a, "scaling") and raw_of(a[1]))
                if value[2] == "float" and whole and not scale:
                    return "a fraction can be written to an integer channel"
                if value[2] == "int" and (not whole or scale is not False):
                    return "numbers are truncated"
                return None
            ok = attr_of(value, "result") and called(value[1], "parse")
            if ok and truth(path.st, lambda a: attr_of(a, "valid") and called(a[1], "parse")) is not True:
                return "invalid text is written"
            if ok and (truth(path.st, lambda a: attr_of(a, "is_integer") and T.contains(a, raw_of)) or truth(path.st, lambda a: attr_of(a, "is_float") and T.contains(a, raw_of))):
                return "a boolean is written to a number"
            return None if ok else f"{T.path(value)} is written"
        boolean = truth(path.st, lambda a: attr_of(a, "is_boolean") and T.contains(a, lambda t: piece(t, 0)))
        if boolean is None:
            return "it isn't known if the channel is a boolean"
        want = "get_bool" if boolean else "get_int"
        ok = called(value, want) and piece(value[3], 1) and is_param(value[4][0], "value")
        return None if ok else "text isn't resolved by the channel's enumeration"

    tr = each_return(ctx, rule, "set", f"{ENV}.set", ENV, written, label=label, opaque=OPAQUE)
    if tr is not None:
        stored = [x for path in tr.ret for x in path.get("store")]
        for key, pred in {
            "names": lambda v: called(v, "get_int") or called(v, "get_bool"),
            "booleans": lambda v: attr_of(v, "result"),
            "numbers": lambda v: v[0] == "call" and v[2] == "float",
            "integers": lambda v: v[0] == "call" and v[2] == "int",
        }.items():
            ctx.ob(rule, f"set/{key}", any(pred(x[3]) for x in stored), f"{key} can't be set by text", tr.func.where)

    defaults(ctx, rule, ctx.p.func(f"{ENV}.set"), scaled=True)

    def item(path):
        call = next((x for x in path.labels if x[0] == "set"), None)
        return None if call and is_param(call[1], "key") and is_param(call[2], "value") else "another value is set"

    def label2(e):
        if e.kind == "call" and e.ev.attr == "set" and e.ev.recv is not None and is_self(T.strip(e.ev.recv)):
            args = [T.strip(x) for x in e.ev.args]
            return ("set", args[0] if args else T.strip(e.ev.kwargs["key"]), args[1] if len(args) > 1 else T.strip(e.ev.kwargs["value"]), len(args) + len(e.ev.kwargs))
        return None

    each_return(ctx, rule, "setitem", f"{ENV}.__setitem__", ENV, item, label=label2, opaque=OPAQUE)

    def lap(path):
        calls = path.get("set")
        if len(calls) != 1:
            return "a value isn't set once"
        keyed_ = T.contains(calls[0][1], param("values")) and T.contains(calls[0][2], param("values"))
        if not keyed_ or calls[0][1] == calls[0][2]:
            return "something else is set"
        if calls[0][1][0] == "unpack" and calls[0][1][2] != 0 or calls[0][2][0] == "unpack" and calls[0][2][2] != 1:
            return "keys are used as values"
        return None if calls[0][3] == 2 else "values aren't set as scaled values"

    each_lap(ctx, rule, "apply", f"{ENV}.apply", ENV, lambda t: T.contains(t, param("values")), lap, label2, opaque=OPAQUE)

    def added(path):
        stores = path.get("store")
        chan = lambda t: attr_of(t, "raw") and T.contains(t[1], lambda x: called(x, "get_int") and is_param(x[4][0], "key"))  # noqa: E731
        if len(stores) != 1 or not chan(stores[0][1]) or stores[0][2] != "value":
            return "the channel isn't changed once"
        val = stores[0][3]
        if not (val[0] == "bin" and val[1] == "+" and any(attr_of(a, "value") and chan(a[1]) and is_param(b, "amount") for a, b in ((val[2], val[3]), (val[3], val[2])))):
            return f"it's changed to {T.path(val)}"
        out = T.strip(path.val)
        return None if out == val or attr_of(out, "value") and chan(out[1]) else "something else than the new value is returned"

    each_return(ctx, rule, "add_int", f"{ENV}.add_int", ENV, added, label=label, opaque=OPAQUE)


def defaults(ctx, rule, func, **want) -> None:
    """Options that aren't given mean the same everywhere."""
    if func is None:
        return
    args = func.node.args
    pos = args.posonlyargs + args.args
    have = dict(zip([a.arg for a in pos[len(pos) - len(args.defaults) :]], args.defaults))
    have.update({a.arg: d for a, d in zip(args.kwonlyargs, args.kw_defaults) if d is not None})
    for name, value in want.items():
        node = have.get(name)
        ctx.ob(rule, f"{func.name}/{name}", isinstance(node, ast.Constant) and node.value is value, f"{name} isn't {value} by default", func.where)


def reading(ctx, rule) -> None:
    def read(path):
        field = is_field(path.st)
        val = T.strip(path.val)
        if field is None:
            return "it isn't known if the key is a field's"
        if field:
            if path.has("lookup"):
                return "a channel with the name of a field is looked up"
            if not fields_call(val, "get") or not is_param(val[4][0], "key"):
                return "a field's value isn't returned"
            return None if is_param(arg(val, 1, "resolve_enum"), "resolve_enum") else "names of values aren't resolved as requested"
        none = known_none(path.st, lambda t: piece(t, 1))
        resolve = truth(path.st, lambda a: is_param(a, "resolve_enum"))
        if called(val, "get_str"):
            if none is not False or resolve is not True:
                return "a name is returned without being requested"
            if not piece(val[3], 1):
                return "another enumeration provides the name"
            val = val[4][0]
        elif none is not True and resolve is not False:
            return "a value isn't resolved by its enumeration"
        while val[0] == "call" and val[2] in ("int", "cast", "typing.cast") and val[4]:
            val = val[4][-1]
        how = scaled(path.st)
        if val[0] == "attr" and raw_of(val[1]):
            return None if how is not None and val[2] == ("scaled" if how else "value") else "a raw value is returned as scaled value, or the other way around"
        return f"{T.path(val)} is returned"

    tr = each_return(ctx, rule, "value", f"{ENV}.value", ENV, read, label=looks, opaque=OPAQUE)
    if tr is not None:
        ctx.ob(rule, "value/names", any(called(T.strip(x.val), "get_str") for x in tr.ret), "values are never resolved by enumerations", tr.func.where)

    defaults(ctx, rule, ctx.p.func(f"{ENV}.value"), scaled=True, resolve_enum=True)

    def age(path):
        val = T.strip(path.val)
        if not called(val, "age_ns"):
            return f"{T.path(val)} is returned"
        prim = val[3]
        none = known_none(path.st, keyed)
        if raw_of(prim):
            return None if none is False else "a channel is used that may not exist"
        ok = attr_of(prim, "raw") and prim[1][0] in ("sub", "call") and T.contains(prim[1], mine("fields")) and T.contains(prim[1], param("key"))
        return None if ok and none is True else "another primitive's age is returned"

    each_return(ctx, rule, "age_ns", f"{ENV}.age_ns", ENV, age, opaque=OPAQUE)


def listing(ctx, rule) -> None:
    def label(e):
        if e.kind == "call" and e.ev.attr in ("value", "get") and e.ev.recv is not None and is_self(T.strip(e.ev.recv)):
            given = e.ev.kwargs.get("resolve_enum") if "resolve_enum" in e.ev.kwargs else (e.ev.args[1] if len(e.ev.args) > 1 else None)
            return ("value", T.strip(e.ev.args[0]), T.strip(given) if given is not None else None)
        if e.kind == "store" and e.ev.kind == "sub":
            return ("put", T.strip(e.ev.name), T.strip(e.ev.value))
        return None

    def lap(getter):
        def check(path):
            puts, reads = path.get("put"), path.get("value")
            if not reads:
                return "a value isn't read"
            if len(puts) > 1:
                return "a value is stored more than once"
            if not is_param(reads[0][2], "resolve_enum"):
                return "names of values aren't resolved as requested"
            if len(reads) > 1 and (reads[1][2] is None or reads[1][2][0] != "const" or reads[1][2][2] is not False):
                return "a value that has no name isn't provided"
            if any(x[1] != reads[0][1] for x in reads):
                return "another value is read"
            if not puts:
                nan = any(pol and called(atom, "isnan") for atom, pol in facts_of(path.st))
                return None if nan else "a value isn't stored"
            if puts[0][1] != reads[0][1]:
                return "a value is stored under another name"
            want = puts[0][2]
            if getter == "value":
                text = any(pol and atom[0] == "isinstance" and atom[1] == want for atom, pol in facts_of(path.st))
                nan = any(pol is False and called(atom, "isnan") and atom[4][0] == want for atom, pol in facts_of(path.st))
                if not text and not nan:
                    return "values that aren't numbers are listed"
            return None if called(want, getter) and is_self(want[3]) and want[4][0] == reads[0][1] else f"{T.path(want)} is stored"

        return check

    def labelled(e):
        return label(e)

    for key, qual, cls, getter, source in (
        ("env.values", f"{ENV}.values", ENV, "value", lambda t: T.contains(t, mine("channels")) and T.contains(t, lambda x: x[0] == "attr" and x[2] == "names")),
        ("fields.values", f"{MANAGER}.values", MANAGER, "get", lambda t: own(t, "lookup") or called(t, "keys") and own(t[3], "lookup")),
    ):
        each_lap(ctx, rule, key, qual, cls, source, lap(getter), labelled, opaque=OPAQUE)
        func = ctx.p.func(qual)
        if func is None:
            continue
        tr = ctx.trace(func, label, ctx.p.cls(cls), opaque=lambda it, ev: ev.func is not None and ev.func.name in OPAQUE)
        names = any(len(x.get("value")) > 1 for x in tr.ret)
        ctx.ob(rule, f"{key}/unnamed", names, "values that have no name aren't listed", func.where)
        single = [x for x in tr.exc if len(x.get("value")) == 1 and not x.has("put") and "KeyError" in str(x.val)]
        ctx.ob(rule, f"{key}/errors", not single, "a value that has no name prevents others from being listed", func.where, single[0].show() if single else ())
        kept = {T.strip(x.val) for x in tr.ret}
        ctx.ob(rule, f"{key}/returned", bool(kept) and not any(x[0] == "const" for x in kept), "what's listed isn't returned", func.where)
        defaults(ctx, rule, func, resolve_enum=True)


def finding(ctx, rule) -> None:
    def exists(path):
        val = T.strip(path.val)
        field = is_field(path.st, "val")
        channel = known_none(path.st, lambda t: keyed(t, "val"))
        got = val[2] if val[0] == "const" else None
        if val[0] == "const":
            want = True if field or channel is False else False if field is False and channel is True else None
            return None if want is not None and got is want else "the answer doesn't match"
        if fields_call(val, "has_field"):
            return None if field is True or channel is True else "channels aren't considered"
        inner = val[1] if val[0] == "not" else None
        if inner is not None and inner[0] == "isnone" and keyed(inner[1], "val"):
            return None if field is False else "fields aren't considered"
        if val[0] == "or":
            return None if T.contains(val, lambda t: fields_call(t, "has_field")) and T.contains(val, lambda t: keyed(t, "val")) else "not everything is considered"
        return f"{T.path(val)} is returned"

    each_return(ctx, rule, "exists", f"{ENV}.exists", ENV, exists, opaque=OPAQUE)

    def found(path):
        val = T.strip(path.val)
        none = known_none(path.st, lambda t: keyed(t, "val"))
        if piece(val, 0, "val"):
            return None if none is False else "a channel that may not exist is returned"
        if fields_call(val, "get_field") and is_param(val[4][0], "val"):
            return None if none is True else "a field hides a channel"
        if val[0] == "const" and val[2] is None:
            absent = any(pol and atom[0] == "isnone" and fields_call(atom[1], "get_field") for atom, pol in facts_of(path.st))
            return None if none is True and absent else "something that exists isn't found"
        return f"{T.path(val)} is returned"

    each_return(ctx, rule, "field_or_channel", f"{ENV}.field_or_channel", ENV, found, opaque=OPAQUE)

    def flag(path):
        val = T.strip(path.val)
        ok = val[0] == "sub" and is_self(val[1]) and is_param(val[2], "key") or called(val, "get_field") and is_param(val[4][0], "key") or called(val, "__getitem__") and is_param(val[4][0], "key")
        if not ok:
            return f"{T.path(val)} is returned"
        one = any((atom[0] == "cmp" and atom[1] == "==" and pol or atom[0] == "isinstance" and pol) and T.contains(atom, lambda t: t == val) for atom, pol in facts_of(path.st))
        return None if one else "a field that's not a flag is returned"

    each_return(ctx, rule, "get_flag", f"{MANAGER}.get_flag", MANAGER, flag, opaque=OPAQUE)

    # Channels are organized by their type.
    def label(e):
        if e.kind == "call" and e.ev.attr == "add" and e.ev.recv is not None and T.strip(e.ev.recv)[0] == "attr":
            return ("add", T.strip(e.ev.recv)[2], T.strip(e.ev.args[0]))
        return None

    kinds = {"bools": "is_boolean", "ints": "is_integer", "floats": "is_float"}

    def organized(path):
        adds = [x for x in path.get("add") if x[1] in kinds]
        held = {kind: truth(path.st, lambda a, kind=kind: attr_of(a, kind) and T.contains(a, lambda t: called(t, "channel"))) for kind in kinds.values()}
        if len(adds) > 1:
            return "a channel has several types"
        if not adds:
            return None if sum(1 for x in held.values() if x is False) >= 3 else "a channel can't be looked up by its type"
        others = [x for name, x in kinds.items() if name != adds[0][1]]
        if held[kinds[adds[0][1]]] is not True and not all(held[x] is False for x in others):
            return f"a channel of another type becomes one of the {adds[0][1]}"
        return None if called(adds[0][2], "channel") and own(adds[0][2][3], "channels") else "another channel is added"

    each_return(ctx, rule, "channel", f"{CREATE}.channel", CREATE, organized, label=label, opaque=OPAQUE)

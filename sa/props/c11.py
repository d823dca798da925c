"""C11: Names and identifiers of a registry are always a one-to-one relation, and lookups follow it."""

from __future__ import annotations

import ast

from sa import terms as T
from sa.props.c06 import arg, attr_of, each_return, is_self, opaque_names, own
from sa.props.common import at_home, facts_of, is_param, none_param

LEVEL = "proof"
EXPLANATION = (
    "The two tables of a mapping are only changed by one method (whole-program scan), for which it's proven on all paths that both tables hold the pair afterwards, or neither was touched. "
    "Registration and lookup methods are compared, path by path, with the relation they have to implement."
)

MAPPING = "runtimepy.mapping.TwoWayNameMapping"
NAMES = "runtimepy.registry.name.NameRegistry"
BOOLS = "runtimepy.registry.bool.BooleanRegistry"
REGISTRY = "runtimepy.registry.Registry"
CHANNELS = "runtimepy.channel.registry.ChannelRegistry"
ENUMS = "runtimepy.enum.registry.EnumRegistry"
ENUM = "runtimepy.enum.RuntimeEnum"
REGEX = "runtimepy.mixins.regex.RegexMixin"
BASE_ENV = "runtimepy.channel.environment.base.BaseChannelEnvironment"
ENV = "runtimepy.channel.environment.create.CreateChannelEnvironment"

MUTATORS = ("add", "append", "update", "clear", "pop", "remove", "insert", "discard", "setdefault", "popitem", "extend", "__setitem__", "__delitem__")


def run(ctx) -> None:
    R1 = ctx.rule("R1", "Storing a pair leaves both tables (and the order) consistent, or unchanged.")
    R2 = ctx.rule("R2", "Nothing else changes the tables.")
    R3 = ctx.rule("R3", "Registering a name gives its identifier, a fresh one if it's new, and fails only for invalid names and taken identifiers.")
    R4 = ctx.rule("R4", "Items are stored under registered names, once, with the identifier of the name.")
    R5 = ctx.rule("R5", "Lookups by name and by identifier agree.")
    R6 = ctx.rule("R6", "Channels use the given primitive and enumeration, and their names aren't used by fields.")
    R7 = ctx.rule("R7", "Enumerations translate by their own table.")
    pair(ctx, R1)
    writers(ctx, R2)
    constructed(ctx, R2)
    names(ctx, R3)
    items(ctx, R4)
    lookups(ctx, R5)
    channels(ctx, R6)
    enums(ctx, R7)


def called(term, name) -> bool:
    return term is not None and term[0] == "call" and term[2].split(".")[-1] == name


def member(st, key, table):
    """Whether a key is known to be in a table of the object."""
    for atom, pol in facts_of(st):
        if atom[0] == "in" and key(atom[1]) and table(atom[2]):
            return pol
        if atom[0] == "isnone" and called(atom[1], "get") and atom[1][4] and table(atom[1][3]) and key(atom[1][4][0]) and len(atom[1][4]) == 1:
            return not pol
    return None


def entry(term, key, table) -> bool:
    """table[key]"""
    if term[0] == "sub":
        return table(term[1]) and key(term[2])
    return term[0] == "call" and term[2].split(".")[-1] in ("get", "setdefault") and term[3] is not None and table(term[3]) and bool(term[4]) and key(term[4][0])


def agrees(st, key, table, value) -> bool:
    for atom, pol in facts_of(st):
        if pol and atom[0] == "cmp" and atom[1] == "==":
            for a, b in ((atom[2], atom[3]), (atom[3], atom[2])):
                if value(a) and entry(b, key, table):
                    return True
    return False


def param(name):
    return lambda t: is_param(t, name)


def mine(*names):
    return lambda t: own(t, *names)


def pair(ctx, rule) -> None:
    key, name = param("key"), param("name")
    forward, backward = mine("_mapping"), mine("_reverse")

    def label(e):
        if e.kind == "store" and e.ev.kind == "sub":
            base = T.strip(e.ev.base)
            if forward(base) or backward(base):
                return ("set", base[2], T.strip(e.ev.name), T.strip(e.ev.value))
        if e.kind == "call" and e.ev.recv is not None and e.ev.attr in MUTATORS:
            base = T.strip(e.ev.recv)
            if attr_of(base, "_mapping", "_reverse", "registered_order"):
                return ("change", base[2], e.ev.attr, tuple(T.strip(x) for x in e.ev.args))
        return None

    func = ctx.anchor_func(rule, f"{MAPPING}._set")
    if func is None:
        return
    tr = ctx.trace(func, label, ctx.p.cls(MAPPING), opaque=opaque_names("validate_name"))
    bad = None

    def judge(path):
        new = {}
        for item in path.labels:
            if item[0] == "set":
                new[item[1]] = item[2:]
            elif item[2] == "setdefault" and len(item[3]) == 2:
                new[item[1]] = item[3]
            elif not (item[1] == "registered_order" and item[2] == "append"):
                return f"{item[1]} is changed by {item[2]}"
        for table, k, v in (("_mapping", key, name), ("_reverse", name, key)):
            if table in new:
                if not (k(new[table][0]) and v(new[table][1])):
                    return f"another pair is stored in {table}"
                if member(path.st, k, mine(table)) is not False and not agrees(path.st, k, mine(table), v):
                    return f"an entry of {table} can be overwritten"
            elif not agrees(path.st, k, mine(table), v):
                return f"{table} can lack the pair"
        order = [x for x in path.labels if x[0] == "change" and x[1] == "registered_order"]
        if any(not name(x[3][0]) for x in order):
            return "something else is put into the order"
        if len(order) != (1 if "_reverse" in new else 0):
            return "the order doesn't list each name once"
        return None

    for path in tr.ret:
        msg = judge(path)
        if msg and bad is None:
            bad = (msg, path)
        if not any(pol and called(atom, "validate_name") for atom, pol in facts_of(path.st)) and bad is None:
            bad = ("an invalid name can be stored", path)
    ctx.ob(rule, "pair", bad is None and len(tr.ret) > 0, bad[0] if bad else "a pair can't be stored", tr.func.where, bad[1].show() if bad else ())
    torn = next((x for x in tr.exc if x.labels), None)
    ctx.ob(rule, "rejected", torn is None, "a rejected pair is partially stored", tr.func.where, torn.show() if torn else ())

    # Valid names match the whole pattern.
    def valid(path):
        fact = next((pol for atom, pol in facts_of(path.st) if atom[0] == "isnone" and attr_of(atom[1], "name_regex")), None)
        if fact is None:
            fact = next((not pol for atom, pol in facts_of(path.st) if attr_of(atom, "name_regex")), None)
        val = T.strip(path.val)
        if fact is True:
            return None if val == ("const", "bool", True) else "without a pattern, names are rejected"
        full = lambda t: called(t, "fullmatch") and attr_of(t[3], "name_regex") and is_param(t[4][0], "name")  # noqa: E731
        if val[0] == "const":
            for atom, pol in facts_of(path.st):
                if atom[0] == "isnone" and full(atom[1]):
                    return None if (not pol) == val[2] else "validity is inverted"
                if full(atom):
                    return None if pol == val[2] else "validity is inverted"
            return "the pattern isn't considered"
        if val[0] == "not" and val[1][0] == "isnone" and full(val[1][1]):
            return None
        if called(val, "bool") and full(val[4][0]):
            return None
        return "not the whole name is matched" if not T.contains(val, full) else "validity is inverted"

    each_return(ctx, rule, "valid", f"{REGEX}.validate_name", REGEX, valid)


def writers(ctx, rule) -> None:
    p = ctx.p
    tables = ("_mapping", "_reverse", "registered_order")
    count = 0
    for func in p.all_functions():
        inside = func.cls is not None and any(c.qual == MAPPING for c in p.mro_classes(func.cls))
        registry = func.cls is not None and any(c.qual == REGISTRY for c in p.mro_classes(func.cls))
        for node in ast.walk(func.node):
            hits = []
            if isinstance(node, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
                targets = node.targets if isinstance(node, (ast.Assign, ast.Delete)) else [node.target]
                for item in targets:
                    base = item.value if isinstance(item, ast.Subscript) else item
                    if isinstance(base, ast.Attribute):
                        hits.append((base, isinstance(item, ast.Subscript)))
            elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in MUTATORS:
                if isinstance(node.func.value, ast.Attribute):
                    hits.append((node.func.value, True))
            for base, element in hits:
                where = f"{func.module.rel}:{node.lineno}"
                if base.attr in tables:
                    count += 1
                    ok = inside and at_home(p, func, "__init__", "_set") and (element or at_home(p, func, "__init__"))
                    ctx.ob(rule, f"table/{base.attr}/{func.qual}", ok, f"{base.attr} is changed outside of _set", where)
                elif base.attr == "items" and (registry or isinstance(base.value, ast.Attribute) and base.value.attr in ("channels", "enums")):
                    count += 1
                    ok = registry and at_home(p, func, "init", "__init__", "register")
                    ctx.ob(rule, f"items/{func.qual}", ok, "registered items are changed elsewhere", where)
    ctx.floor(rule, "changes of tables", count, 7)

    # Loading existing pairs goes through the same method.
    for name, k, v in (("load_key_to_name", 0, 1), ("load_name_to_key", 1, 0)):
        def label(e):
            if e.kind == "call" and e.ev.attr == "_set":
                return ("pair", *(T.strip(x) for x in e.ev.args), *(T.strip(x) for x in e.ev.kwargs.values()))
            if e.kind == "iterend":
                return [("end",), ("cut",)]
            return None

        func = ctx.anchor_func(rule, f"{MAPPING}.{name}")
        if func is None:
            continue
        source = func.node.args.args[1].arg
        tr = ctx.trace(func, label, p.cls(MAPPING), opaque=opaque_names("_set"), cap=2)

        def part(term, index):
            return term == ("sel", term[1], index) if term[0] == "sel" else term[-1] == index or f"<{index}>" in T.path(term)

        bad = None
        seen = False
        for path in tr.ret:
            pairs = path.get("pair")
            seen = seen or bool(pairs)
            for item in pairs:
                if len(item) != 3 or not all(T.contains(x, param(source)) for x in item[1:]) or not T.path(item[1]).endswith(f"<{k}>") or not T.path(item[2]).endswith(f"<{v}>"):
                    bad = bad or ("key and name are mixed up", path)
            if path.count("end") > len(pairs):
                bad = bad or ("a loaded pair isn't stored", path)
        ctx.ob(rule, f"load/{name}", bad is None and seen, bad[0] if bad else "loaded pairs aren't stored", func.where, bad[1].show() if bad else ())


def constructed(ctx, rule) -> None:
    """Pairs given to the constructor are loaded."""
    for qual in (MAPPING, NAMES):
        def label(e):
            if e.kind == "call" and e.ev.attr in ("load_key_to_name", "load_name_to_key"):
                return ("load", e.ev.attr, T.strip(e.ev.args[0]))
            return None

        def loaded(path):
            for name, loader in (("mapping", "load_key_to_name"), ("reverse", "load_name_to_key")):
                done = [x for x in path.get("load") if x[1] == loader and is_param(x[2], name)]
                truth = next((pol for atom, pol in facts_of(path.st) if is_param(atom, name)), None)
                given = none_param(path.st, name)
                if (given is False or given is None) and truth is not False and not done:
                    return f"the given {name} isn't loaded"
            return None

        each_return(ctx, rule, f"constructor/{qual.split('.')[-1]}", f"{qual}.__init__", qual, loaded, label=label, opaque=("load_key_to_name", "load_name_to_key"))


def names(ctx, rule) -> None:
    def label(e):
        if e.kind == "call" and e.ev.attr == "_set":
            return ("pair", *(T.strip(x) for x in e.ev.args), *(T.strip(x) for x in e.ev.kwargs.values()))
        return None

    identifier = lambda t: called(t, "identifier") and is_param(t[4][0], "name") or entry(t, param("name"), mine("_reverse"))  # noqa: E731

    def registered(path):
        facts = facts_of(path.st)
        known = next((not pol for atom, pol in facts if atom[0] == "isnone" and identifier(atom[1])), None)
        if known is None:
            known = member(path.st, param("name"), mine("_reverse"))
        val = T.strip(path.val)
        pairs = path.get("pair")
        given = none_param(path.st, "identifier")
        if known is None:
            return "it isn't considered if the name is registered"
        if known:
            if pairs:
                return "a registered name gets another identifier"
            if not identifier(val):
                return "another identifier than the registered one is returned"
            if given is not True and not any(pol and atom[0] == "cmp" and atom[1] == "==" and {True} == {identifier(x) or is_param(x, "identifier") for x in atom[2:4]} for atom, pol in facts):
                return "a conflicting identifier is accepted"
            return None
        valid = next((pol for atom, pol in facts if called(atom, "validate_name")), None)
        if val == ("const", "NoneType", None) or val[0] == "const" and val[2] is None:
            if pairs:
                return "failure is reported for a registered name"
            taken = any(pol and atom[0] == "in" and own(atom[2], "_mapping") and is_param(atom[1], "identifier") for atom, pol in facts)
            return None if valid is False or taken else "a valid name with a free identifier is rejected"
        if len(pairs) != 1 or pairs[0][1] != val or not is_param(pairs[0][2], "name"):
            return "the identifier isn't stored for the name"
        if given is False and not is_param(val, "identifier"):
            return "another identifier than the requested one is used"
        free = any(pol is False and atom[0] == "in" and own(atom[2], "_mapping") and atom[1] == val for atom, pol in facts)
        if not free:
            return "an identifier that's taken can be used"
        return None

    tr = each_return(ctx, rule, "register_name", f"{NAMES}.register_name", NAMES, registered, label=label, opaque=("_set", "identifier", "validate_name"))
    if tr is not None:
        ctx.ob(rule, "register_name/known", any(identifier(T.strip(x.val)) for x in tr.ret), "a registered name is never found", tr.func.where)
        for path in tr.exc:
            facts = facts_of(path.st)
            known = next((not pol for atom, pol in facts if atom[0] == "isnone" and identifier(atom[1])), None)
            differ = any(pol is False and atom[0] == "cmp" and atom[1] == "==" and T.contains(atom, param("identifier")) for atom, pol in facts)
            if known and not differ:
                ctx.ob(rule, "register_name/same", False, "a registered name is rejected without a conflict", tr.func.where, path.show())
        fresh = [x for x in tr.ret if x.has("pair") and none_param(x.st, "identifier") is not False]
        ctx.ob(rule, "register_name/fresh", bool(fresh), "a new name never gets an identifier", tr.func.where)

    def registered_bool(path):
        val = T.strip(path.val)
        facts = facts_of(path.st)
        pairs = path.get("pair")
        if val[0] != "const":
            return "it isn't clear if the pair was registered"
        if bool(val[2]) != bool(pairs):
            return "the result doesn't tell if the pair was registered"
        name_known = member(path.st, param("name"), mine("_reverse"))
        value_known = member(path.st, param("value"), mine("_mapping"))
        if pairs:
            if len(pairs) != 1 or not is_param(pairs[0][1], "value") or not is_param(pairs[0][2], "name"):
                return "another pair is stored"
            if name_known is not False or value_known is not False:
                return "a pair can be stored twice"
            return None
        valid = next((pol for atom, pol in facts if called(atom, "validate_name")), None)
        return None if valid is False or name_known or value_known else "a free, valid pair is rejected"

    each_return(ctx, rule, "register", f"{BOOLS}.register", BOOLS, registered_bool, label=label, opaque=("_set", "identifier", "validate_name"))


def items(ctx, rule) -> None:
    def label(e):
        if e.kind == "store" and e.ev.kind == "sub" and own(T.strip(e.ev.base), "items"):
            known = member(e.st, lambda t: t == T.strip(e.ev.name), mine("items"))
            return ("item", T.strip(e.ev.name), T.strip(e.ev.value), known)
        if e.kind == "call" and e.ev.attr == "register_name":
            return ("name", T.strip(e.ev.recv), T.strip(e.ev.args[0]), T.strip(e.ev.args[1] if len(e.ev.args) > 1 else e.ev.kwargs.get("identifier", ("const", "NoneType", None))))
        if e.kind == "store" and e.ev.kind == "sub" and is_param(T.strip(e.ev.base), "data"):
            return ("data", T.strip(e.ev.name), T.strip(e.ev.value))
        if e.kind == "store" and e.ev.kind == "attr" and is_self(T.strip(e.ev.base)):
            return ("attr", e.ev.name, T.strip(e.ev.value))
        return None

    def registered(path):
        stored = path.get("item")
        val = T.strip(path.val)
        if val[0] != "const":
            return "it isn't clear if the item was stored"
        if bool(val[2]) != bool(stored):
            return "the result doesn't tell if the item was stored"
        calls = path.get("name")
        if len(calls) != 1 or not own(calls[0][1], "names") or not is_param(calls[0][2], "name") or not (calls[0][3][0] == "attr" and calls[0][3][2] == "id" and is_param(calls[0][3][1], "item")):
            return "the name isn't registered with the item's identifier"
        none = next((pol for atom, pol in facts_of(path.st) if atom[0] == "isnone" and called(atom[1], "register_name")), None)
        if stored:
            if none is not False:
                return "an item is stored without a registered name"
            if len(stored) != 1 or not is_param(stored[0][1], "name") or not is_param(stored[0][2], "item"):
                return "the item isn't stored under its name"
            return None if stored[0][3] is False else "an item can be replaced"
        known = member(path.st, param("name"), mine("items"))
        return None if none or known else "a free name isn't used"

    each_return(ctx, rule, "register", f"{REGISTRY}.register", REGISTRY, registered, label=label, opaque=("register_name",))

    def from_dict(path):
        val = T.strip(path.val)
        facts = facts_of(path.st)
        calls = path.get("name")
        given = any(pol and atom[0] == "in" and atom[1] == ("const", "str", "id") and is_param(atom[2], "data") for atom, pol in facts)
        if given and calls:
            return "a given identifier is replaced"
        if not given and (len(calls) != 1 or not own(calls[0][1], "names") or not is_param(calls[0][2], "name")):
            return "no identifier is obtained for the name"
        none = next((pol for atom, pol in facts if atom[0] == "isnone" and called(atom[1], "register_name")), None)
        if none and not given:
            return None if val[0] == "const" and val[2] is None else "an item is returned though its name can't be registered"
        if not given and not any(x[1] == ("const", "str", "id") and called(x[2], "register_name") for x in path.get("data")):
            return "the item doesn't get the registered identifier"
        result = next((pol for atom, pol in facts if called(atom, "register")), None)
        if result is None:
            return "the item isn't registered"
        if not result:
            return None if val[0] == "const" and val[2] is None else "an item that isn't registered is returned"
        term = next(atom for atom, pol in facts if called(atom, "register"))
        if len(term[4]) < 2 or not is_param(term[4][0], "name") or term[4][1] != val:
            return "another item than the registered one is returned"
        if not (val[0] in ("call", "new") and T.contains(val, param("data"))):
            return "the item isn't created from the data"
        return None

    each_return(ctx, rule, "register_dict", f"{REGISTRY}.register_dict", REGISTRY, from_dict, label=label, opaque=("register_name", "register"))

    def initial(path):
        values = {x[1]: x[2] for x in path.get("attr")}
        names_ = values.get("names")
        if names_ is None or "items" not in values:
            return "items or names aren't set"
        if not T.contains(names_, mine("name_registry")) and not (names_[0] == "new" and names_[2].endswith("NameRegistry")):
            return "another kind of name registry is used"
        if T.contains(names_, lambda t: t[0] == "comp" and not t[2]):
            return None
        if not T.contains(names_, lambda t: attr_of(t, "id")):
            return "names aren't registered with the identifiers of items"
        full.append(path)
        return None

    full: list = []
    tr = each_return(ctx, rule, "init", f"{REGISTRY}.init", REGISTRY, initial, label=label)
    if tr is not None:
        ctx.ob(rule, "init/names", bool(full), "names of loaded items aren't registered", tr.func.where)


def lookups(ctx, rule) -> None:
    def text(st):
        return next((pol for atom, pol in facts_of(st) if atom[0] == "isinstance" and is_param(atom[1], "key")), None)

    def is_none(val):
        return val[0] == "const" and val[2] is None

    def identifier(path):
        val, st = T.strip(path.val), path.st
        kind = text(st)
        if kind is None:
            return "names and identifiers aren't distinguished"
        table = mine("_reverse") if kind else mine("_mapping")
        known = member(st, param("key"), table)
        if kind:
            if called(val, "get") and entry(val, param("key"), table) and (len(val[4]) == 1 or is_none(val[4][1])):
                return None
            if known and entry(val, param("key"), table):
                return None
        elif known and is_param(val, "key"):
            return None
        return None if is_none(val) and known is False else f"{T.path(val)} is returned"

    each_return(ctx, rule, "identifier", f"{MAPPING}.identifier", MAPPING, identifier)

    def name(path):
        val, st = T.strip(path.val), path.st
        kind = text(st)
        if kind is None:
            return "names and identifiers aren't distinguished"
        if kind:
            known = member(st, param("key"), mine("_reverse"))
            if known:
                return None if is_param(val, "key") else f"{T.path(val)} is returned for a name"
            if known is None:
                return "it isn't considered if the name is registered"
            # Names aren't in the table of identifiers.
            return None if is_none(val) or entry(val, param("key"), mine("_mapping")) else f"{T.path(val)} is returned for an unknown name"
        known = member(st, param("key"), mine("_mapping"))
        if called(val, "get") and entry(val, param("key"), mine("_mapping")) and (len(val[4]) == 1 or is_none(val[4][1])):
            return None
        if known and entry(val, param("key"), mine("_mapping")):
            return None
        return None if is_none(val) and known is False else f"{T.path(val)} is returned"

    each_return(ctx, rule, "name", f"{MAPPING}.name", MAPPING, name)

    def registry_get(path):
        val = T.strip(path.val)
        facts = facts_of(path.st)
        found = lambda t: called(t, "name") and own(t[3], "names") and is_param(t[4][0], "key")  # noqa: E731
        none = next((pol for atom, pol in facts if atom[0] == "isnone" and found(atom[1])), None)
        known = member(path.st, found, mine("items"))
        if called(val, "get") and entry(val, found, mine("items")):
            return None
        if not is_none(val):
            return None if entry(val, found, mine("items")) and known else f"{T.path(val)} is returned"
        return None if none or known is False else "a registered item isn't found"

    each_return(ctx, rule, "get", f"{REGISTRY}.get", REGISTRY, registry_get, opaque=("name",))

    def item(path):
        val = T.strip(path.val)
        none = next((pol for atom, pol in facts_of(path.st) if atom[0] == "isnone" and atom[1] == val), None)
        if not (called(val, "get") and is_param(val[4][0], "key")):
            return f"{T.path(val)} is returned"
        return None if none is False else "a missing item is returned as None"

    for qual in (REGISTRY, BASE_ENV):
        each_return(ctx, rule, f"{qual.split('.')[-1]}[]", f"{qual}.__getitem__", qual, item, opaque=("get",))

    def search(e):
        if e.kind == "yield":
            return ("out", T.strip(e.term))
        return None

    func = ctx.anchor_func(rule, f"{REGISTRY}.search")
    if func is not None:
        tr = ctx.trace(func, search, ctx.p.cls(REGISTRY), opaque=opaque_names("search"), cap=2)
        outs = [x[1] for path in tr.all for x in path.get("out")]
        ok = bool(outs) and all(x[0] == "tuple" and entry(x[1][1], lambda t, a=x[1][0]: t == a, mine("items")) for x in outs)
        ctx.ob(rule, "search", ok, "a name is found with another item", func.where)

    def env_get(path):
        val = T.strip(path.val)
        facts = facts_of(path.st)
        chan = lambda t: called(t, "get") and own(t[3], "channels") and is_param(t[4][0], "val")  # noqa: E731
        none = next((pol for atom, pol in facts if atom[0] == "isnone" and chan(atom[1])), None)
        if is_none(val):
            return None if none else "a registered channel isn't found"
        if none is not False or val[0] != "tuple" or not chan(val[1][0]):
            return "another channel is returned"
        enum = val[1][1]
        known = member(path.st, chan, mine("channel_enums"))
        if called(enum, "get") and entry(enum, chan, mine("channel_enums")):
            return None
        if is_none(enum):
            return None if known is False else "a channel's enumeration isn't returned"
        return None if known and entry(enum, chan, mine("channel_enums")) else "another enumeration is returned"

    each_return(ctx, rule, "env.get", f"{BASE_ENV}.get", BASE_ENV, env_get, opaque=("get",))

    # Channels of a certain type.
    for name_, table in (("get_int", "ints"), ("get_bool", "bools"), ("get_float", "floats")):
        def typed(path, table=table):
            val = T.strip(path.val)
            chan = val[1][0] if val[0] == "tuple" else val
            if not T.contains(chan, param("key")):
                return f"{T.path(chan)} is returned"
            ok = any(pol and atom[0] == "in" and atom[1] == chan and own(atom[2], table) for atom, pol in facts_of(path.st))
            return None if ok else "a channel of another type can be returned"

        each_return(ctx, rule, f"env.{name_}", f"{BASE_ENV}.{name_}", BASE_ENV, typed, opaque=("__getitem__",))


def channels(ctx, rule) -> None:
    def label(e):
        if e.kind == "call" and e.ev.attr == "update_primitive":
            return ("bound", T.strip(e.ev.recv), T.strip(e.ev.args[0] if e.ev.args else e.ev.kwargs.get("primitive")))
        if e.kind == "call" and e.ev.attr == "register_dict":
            return ("register", tuple(T.strip(x) for x in e.ev.args), T.strip(e.ev.recv))
        if e.kind == "store" and e.ev.kind == "attr" and e.ev.name == "scaling":
            facts = facts_of(e.st)
            same = any(attr_of(atom, "scaling") and pol is False for atom, pol in facts) or any(pol and atom[0] == "cmp" and atom[1] == "==" and "scaling" in str(atom) for atom, pol in facts)
            return ("scaling", T.strip(e.ev.value), same)
        if e.kind == "store" and e.ev.kind == "sub" and T.strip(e.ev.name)[0] == "const" and not own(T.strip(e.ev.base), "channel_enums"):
            return ("data", T.strip(e.ev.name)[2], T.strip(e.ev.value))
        if e.kind == "store" and e.ev.kind == "sub" and own(T.strip(e.ev.base), "channel_enums"):
            return ("enum", T.strip(e.ev.name), T.strip(e.ev.value))
        if e.kind == "call" and e.ev.attr == "channel":
            return ("channel", T.strip(e.ev.recv), tuple(T.strip(x) for x in e.ev.args), tuple((k, T.strip(v)) for k, v in e.ev.kwargs.items() if k is not None))
        return None

    def created(path):
        val = T.strip(path.val)
        regs = path.get("register")
        if len(regs) != 1 or not is_self(regs[0][2]) or not is_param(regs[0][1][0], "name"):
            return "the channel isn't registered by its name"
        if not called(val, "register_dict"):
            return "another channel is returned"
        data = regs[0][1][1]
        content = {k[2]: v for k, v in data[1] if k[0] == "const"} if data[0] == "dict" else {}
        content.update({x[1]: x[2] for x in path.get("data")})
        if not (T.contains(content.get("type", ("?",)), lambda t: attr_of(t, "kind")) and is_param(content.get("commandable"), "commandable")):
            return "type or commandability of the channel aren't the given ones"
        for key in ("enum", "default", "description"):
            truth = next((pol for atom, pol in facts_of(path.st) if is_param(atom, key)), None)
            given = none_param(path.st, key)
            if given is not True and truth is not False and not is_param(content.get(key), key):
                return f"the channel lacks the given {key}"
            if given is True and key in content and not is_param(content[key], key):
                return f"the channel has another {key} than the given one"
        scaled = path.get("scaling")
        truth = next((pol for atom, pol in facts_of(path.st) if is_param(atom, "scaling")), None)
        if truth is not False and none_param(path.st, "scaling") is not True and not scaled or any(not is_param(x[1], "scaling") for x in scaled):
            return "the primitive doesn't get the scaling"
        if any(not x[2] for x in scaled):
            return "a primitive's scaling is replaced by another one"
        none = next((pol for atom, pol in facts_of(path.st) if atom[0] == "isnone" and atom[1] == val), None)
        bound = path.get("bound")
        if none is True:
            return None if not bound else "a missing channel is bound"
        if none is None:
            return "it isn't considered if the channel was registered"
        if len(bound) != 1 or bound[0][1] != val:
            return "the channel isn't bound to its primitive"
        prim = bound[0][2]
        if is_param(prim, "kind"):
            return None
        if (prim[0] == "call" and prim[2] == "?call" or T.contains(prim, param("kind"))) and any(pol is False and atom[0] == "isinstance" for atom, pol in facts_of(path.st)):
            return None
        return None if T.contains(prim, lambda t: is_param(t, "kind")) and prim[0] in ("call", "new") else "the channel is bound to another primitive"

    tr = each_return(ctx, rule, "registry", f"{CHANNELS}.channel", CHANNELS, created, label=label, opaque=("register_dict", "update_primitive", "normalize", "normalize_controls"))
    if tr is not None:
        ok = any(is_param(x[2], "kind") for path in tr.ret for x in path.get("bound"))
        ctx.ob(rule, "registry/given", ok, "a primitive that's passed in isn't used", tr.func.where)

    def environment(path):
        val = T.strip(path.val)
        facts = facts_of(path.st)
        chans = [x for x in path.get("channel") if own(x[1], "channels")]
        if len(chans) != 1:
            return "the channel isn't created once"
        name = chans[0][2][0] if chans[0][2] else dict(chans[0][3]).get("name")
        if not (called(name, "namespace") and T.contains(name, param("name")) and T.contains(name, param("namespace"))):
            return "the channel's name isn't in the namespace"
        given = dict(chans[0][3])
        prim = chans[0][2][1] if len(chans[0][2]) > 1 else given.get("kind")
        if not is_param(prim, "kind"):
            return "another primitive is used"
        for key in ("commandable", "scaling"):
            if not is_param(given.get(key), key):
                return f"{key} isn't passed on"
        enum = given.get("enum")
        if enum is None or not (is_param(enum, "enum") or enum[0] == "attr" and enum[2] == "id" and is_param(enum[1], "enum")) and not (enum[0] == "const" and enum[2] is None and none_param(path.st, "enum")):
            return "enum isn't passed on"
        if not is_param(given.get("**"), "kwargs"):
            return "other options aren't passed on"
        kind = next((pol for atom, pol in facts if atom[0] == "isinstance" and is_param(atom[1], "enum")), None)
        if kind is True and is_param(enum, "enum") or kind is False and not is_param(enum, "enum"):
            return "an enumeration isn't referred to by its identifier"
        result = lambda t: called(t, "channel") and own(t[3], "channels")  # noqa: E731
        none = next((pol for atom, pol in facts if atom[0] == "isnone" and result(atom[1])), None)
        if none is not False and not any(pol and result(atom) for atom, pol in facts):
            return "a channel that couldn't be created is returned"
        field = any(pol is False and called(atom, "has_field") and own(atom[3], "fields") and atom[4][0] == name for atom, pol in facts)
        if not field:
            return "the name can be one of a bit-field"
        enums_ = path.get("enum")
        absent = enum[0] == "const" and enum[2] is None or any(pol and atom == ("isnone", enum) for atom, pol in facts)
        if absent:
            if enums_:
                return "an enumeration is stored without being given"
        elif len(enums_) != 1 or not result(enums_[0][1]) or not T.contains(enums_[0][2], mine("enums")) or not T.contains(enums_[0][2], param("enum")):
            return "the channel's enumeration isn't stored"
        ok = val[0] == "sub" and is_self(val[1]) and val[2] == name or called(val, "__getitem__") and val[4][0] == name or val[0] == "tuple" and result(val[1][0])
        return None if ok else f"{T.path(val)} is returned"

    each_return(ctx, rule, "environment", f"{ENV}.channel", ENV, environment, label=label, opaque=("channel", "namespace", "has_field", "set_min_period", "__getitem__"))

    # Channels are organized by their type.
    def label2(e):
        if e.kind == "call" and e.ev.attr == "add" and e.ev.recv is not None and own(T.strip(e.ev.recv), e.ev.recv[2] if e.ev.recv[0] == "attr" else "?"):
            kind = next((atom[2] for atom, pol in facts_of(e.st) if pol and atom[0] == "attr" and atom[2].startswith("is_")), None)
            return ("add", T.strip(e.ev.recv)[2], T.strip(e.ev.args[0]), kind)
        if e.kind == "call" and e.ev.attr == "channel" and is_self(T.strip(e.ev.recv)):
            return ("channel", tuple(T.strip(x) for x in e.ev.args), tuple((k, T.strip(v)) for k, v in e.ev.kwargs.items() if k is not None))
        return None

    for name, table, kind in (("int_channel", "ints", "is_integer"), ("bool_channel", "bools", "is_boolean"), ("float_channel", "floats", "is_float")):
        func = ctx.p.lookup(ctx.p.cls(ENV), name) if ctx.p.cls(ENV) else None
        params = [a.arg for a in func.node.args.args[1:]] if func else []

        def typed(path, table=table, kind=kind, params=params):
            calls = path.get("channel")
            if len(calls) != 1:
                return "the channel isn't created once"
            given = dict(zip(("name", "kind", "commandable", "enum", "namespace", "scaling"), calls[0][1]))
            given.update(dict(calls[0][2]))
            for param_ in params:
                if not is_param(given.get(param_), param_):
                    return f"{param_} isn't passed on"
            if not is_param(given.get("**"), "kwargs"):
                return "other options aren't passed on"
            adds = path.get("add")
            if len(adds) != 1 or adds[0][1] != table:
                return f"the channel isn't one of the {table}"
            return None if adds[0][3] == kind else f"a channel of another type becomes one of the {table}"

        each_return(ctx, rule, name, f"{ENV}.{name}", ENV, typed, label=label2, opaque=("channel",))

    def new_enum(path):
        val = T.strip(path.val)
        if not (called(val, "enum") and own(val[3], "enums")):
            return "another enumeration is returned"
        none = next((pol for atom, pol in facts_of(path.st) if atom[0] == "isnone" and atom[1] == val), None)
        if none is not False and not any(pol and atom == val for atom, pol in facts_of(path.st)):
            return "an enumeration that couldn't be created is returned"
        name = arg(val, 0, "name")
        if not (called(name, "namespace") and T.contains(name, param("name")) and T.contains(name, param("namespace"))):
            return "the name isn't in the namespace"
        for i, key in enumerate(("kind", "items", "primitive"), 1):
            if not is_param(arg(val, i, key), key):
                return f"{key} isn't passed on"
        return None

    each_return(ctx, rule, "env.enum", f"{ENV}.enum", ENV, new_enum, opaque=("enum", "namespace"))


def enums(ctx, rule) -> None:
    def own_table(t, name):
        return t is not None and t[0] == "attr" and t[2] in (name, "_" + name) and is_self(t[1])

    def integer(st):
        for atom, pol in facts_of(st):
            if own(atom, "is_integer"):
                return pol
            if own(atom, "is_boolean"):
                return not pol
            if atom[0] == "isnone" and own(atom[1], "_ints") or atom[0] == "isnone" and own(atom[1], "ints"):
                return not pol
            if atom[0] == "isnone" and own(atom[1], "_bools"):
                return pol
            if atom[0] in ("is", "cmp") and T.contains(atom, mine("type")):
                return pol if "INT" in str(atom) else not pol
        return None

    def label(e):
        if e.kind == "store" and e.ev.kind == "attr" and is_self(T.strip(e.ev.base)) and e.ev.name in ("_ints", "_bools"):
            kind = next((pol for atom, pol in facts_of(e.st) if "INT" in str(atom) and "type" in str(atom)), None)
            return ("table", e.ev.name, T.strip(e.ev.value), kind)
        return None

    def initial(path):
        last = {x[1]: x for x in path.get("table")}
        filled = [x for x in last.values() if not (x[2][0] == "const" and x[2][2] is None)]
        if len(last) != 2 or len(filled) != 1:
            return "there isn't a single table"
        kind = filled[0][3]
        if kind is None or kind != (filled[0][1] == "_ints"):
            return "the table isn't the one of the enumeration's type"
        return None if T.contains(filled[0][2], param("data")) else "the table isn't created from the data"

    each_return(ctx, rule, "init", f"{ENUM}.init", ENUM, initial, label=label, opaque=("int_from_dict", "bool_from_dict", "normalize"))

    for name, table in (("is_integer", "_ints"), ("is_boolean", "_bools")):
        def present(path, table=table):
            val = T.strip(path.val)
            none = next((pol for atom, pol in facts_of(path.st) if atom[0] == "isnone" and own(atom[1], table)), None)
            if val == ("not", ("isnone", ("attr", val[1][1][1] if val[0] == "not" and val[1][0] == "isnone" and val[1][1][0] == "attr" else None, table, ()))):
                return None
            if val[0] == "const" and none is not None and bool(val[2]) != none:
                return None
            return f"{T.path(val)} is returned"

        each_return(ctx, rule, name, f"{ENUM}.{name}", ENUM, present)

    for name in ("ints", "bools"):
        def table_of(path, name=name):
            return None if own(T.strip(path.val), "_" + name) else f"{T.path(T.strip(path.val))} is returned"

        each_return(ctx, rule, name, f"{ENUM}.{name}", ENUM, table_of)

    def as_str(path):
        val = T.strip(path.val)
        kind = integer(path.st)
        if kind is None:
            return "kinds of enumerations aren't distinguished"
        ok = called(val, "name") and own_table(val[3], "ints" if kind else "bools") and is_param(val[4][0], "value")
        return None if ok else f"{T.path(val)} is returned"

    each_return(ctx, rule, "as_str", f"{ENUM}.as_str", ENUM, as_str, opaque=("name", "ints", "bools", "is_integer", "is_boolean"))

    def found(inner):
        def check(path):
            val = T.strip(path.val)
            if val[0] == "call" and val[2] == "int":
                val = val[4][0]
            if not (val[0] == "call" and val[2].split(".")[-1] in inner and is_param(val[4][0], "value")):
                return f"{T.path(val)} is returned"
            none = next((pol for atom, pol in facts_of(path.st) if atom[0] == "isnone" and atom[1] == val), None)
            if len(inner) > 1:
                first = val[2].split(".")[-1] == inner[0]
                known = any(
                    not pol and atom[0] == "isnone" and own_table(atom[1], "ints" if first else "bools") or own(atom, "is_integer") and pol == first or own(atom, "is_boolean") and pol != first
                    for atom, pol in facts_of(path.st)
                )
                if not known:
                    return "another kind of enumeration is looked up"
            return None if none is False else "a missing entry is returned as None"

        return check

    for name, inner in (("get_str", ("as_str",)), ("get_int", ("as_int", "as_bool")), ("get_bool", ("as_bool",))):
        each_return(ctx, rule, name, f"{ENUM}.{name}", ENUM, found(inner), opaque=("as_str", "as_int", "as_bool"))

    def as_value(table, convert):
        def check(path):
            val = T.strip(path.val)
            ident = lambda t: called(t, "identifier") and own_table(t[3], table)  # noqa: E731
            direct = next((pol for atom, pol in facts_of(path.st) if atom[0] == "isnone" and ident(atom[1]) and is_param(atom[1][4][0], "value")), None)
            if direct is False:
                return None if ident(val) and is_param(val[4][0], "value") else f"{T.path(val)} is returned for an entry"
            if direct is None and not (ident(val) and is_param(val[4][0], "value")):
                return "the value isn't looked up"
            if ident(val) and T.contains(val, param("value")):
                return None
            if val[0] == "const" and val[2] is None:
                return None
            if convert and T.contains(val, lambda t: called(t, convert)):
                valid = any(pol and attr_of(atom, "valid") for atom, pol in facts_of(path.st))
                return None if valid else "text that isn't a value is used"
            return f"{T.path(val)} is returned for an unknown entry"

        return check

    each_return(ctx, rule, "as_int", f"{ENUM}.as_int", ENUM, as_value("ints", None), opaque=("identifier", "ints", "bools"))
    each_return(ctx, rule, "as_bool", f"{ENUM}.as_bool", ENUM, as_value("bools", "parse"), opaque=("identifier", "ints", "bools", "parse"))

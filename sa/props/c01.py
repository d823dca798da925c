"""C01: primitive writes are stored, timestamped and notified exactly once."""

from __future__ import annotations

from sa import terms as T
from sa.props.common import at_home, base_elem, concrete, facts_of, is_param, self_attr, truth_of

LEVEL = "proof"
EXPLANATION = (
    "Typestate over every path of Primitive.set_value for each concrete primitive class (helpers and overrides inlined), plus a "
    "type-resolved who-may-store rule over every function of the package for the raw storage of a primitive, and argument rules for every "
    "mutator that must funnel into set_value. What is decided: the order and arguments of timestamp, store, callback and one-shot "
    "removal on all paths. What is not: what a user-supplied callback does."
)

PRIM = "runtimepy.primitives.base.Primitive"
SET = f"{PRIM}.set_value"


def raw_value(term) -> bool:
    return term[0] == "attr" and term[2] == "value" and self_attr(term[1], "raw")


def label_set(e):
    """Label events while setting a value."""
    if e.kind == "store" and e.ev.kind == "attr":
        base = T.strip(e.ev.base)
        if e.ev.name == "last_updated_ns" and base[0] == "self":
            return ("ts", e.ev.value)
        if e.ev.name == "value" and self_attr(base, "raw"):
            return ("store", e.ev.value)
    if e.kind == "loop" and any(self_attr(c, "callbacks") for c in T.containers(e.term)):
        live = not T.contains(e.term, lambda t: t[0] == "call" and t[2].split(".")[-1] in ("list", "tuple", "sorted", "copy") or t[0] in ("list", "tuple"))
        return ("empty",) if e.extra else ("iter", live)
    if e.kind == "loop" and e.extra and e.term[0] == "comp":
        return ("emptycomp",)
    if e.kind == "iterend" and e.term is not None and any(self_attr(c, "callbacks") for c in T.containers(e.term)):
        return ("end", once_flag(e.st))
    if e.kind == "call":
        fterm = e.ev.fterm
        if fterm is not None and e.ev.func is None and base_elem(fterm, "callbacks"):
            return ("notify", tuple(e.ev.args), fterm)
        if e.ev.recv is not None and self_attr(e.ev.recv, "callbacks") and e.ev.attr in ("pop", "clear"):
            return ("drop", e.ev.args[0] if e.ev.args else None)
        if e.is_method("append", "add") and e.ev.args and base_elem(e.ev.args[0], "callbacks"):
            return ("queue", e.ev.args[0])
    if e.kind == "store" and e.ev.kind == "delsub" and self_attr(e.ev.base, "callbacks"):
        return ("drop", e.ev.name)
    return None


def late_drop(path) -> bool:
    """One-shot registrations chosen by a comprehension and dropped."""
    for x in path.get("drop"):
        if x[1] is not None and T.contains(x[1], lambda t: t[0] == "comp"):
            return True
    return not path.has("drop") and any(x[0] == "emptycomp" for x in path.labels)


def once_flag(st):
    """The known one-shot flag of the registration being visited."""
    for atom, pol in st.facts:
        if atom[0] == "unpack" and base_elem(atom, "callbacks"):
            return pol
        if atom[0] == "sub" and base_elem(atom[1], "callbacks"):
            return pol
    return None


def check_set(ctx, cls) -> None:
    p = ctx.p
    func = p.lookup(cls, "set_value")
    is_float = p.is_subclass(cls, "runtimepy.primitives.float.BaseFloatPrimitive")
    tr = ctx.trace(func, label_set, cls)
    name = cls.qual

    def bad(rule, path, msg):
        ctx.ob(rule, name, False, msg, func.where, path.show())

    eq = None
    for path in tr.ret:
        st = path.st
        names = path.names()
        stores, stamps = path.get("store"), path.get("ts")
        # One store of the given value.
        if len(stores) != 1 or not is_param(stores[0][1], "value"):
            bad("R2-store", path, "a completed write doesn't store the given value exactly once")
        # One timestamp, the given one or else the instance's time source.
        if len(stamps) != 1:
            bad("R2-stamp", path, "a completed write doesn't set the update time exactly once")
        else:
            val = stamps[0][1]
            none = None
            for atom, pol in facts_of(st):
                if atom[0] == "isnone" and is_param(atom[1], "timestamp_ns"):
                    none = pol
                if is_param(atom, "timestamp_ns") and none is None:
                    none = not pol
            given = is_param(val, "timestamp_ns") and none is False
            sourced = none is True and val[0] == "call" and "time_source" in T.path(val)
            if not (given or sourced):
                bad("R2-stamp", path, f"update time {T.path(val)} isn't the given timestamp or the instance's time source")
        notifies = path.get("notify")
        same = None
        nan = None
        for atom, pol in facts_of(st):
            if atom[0] == "cmp" and atom[1] == "==" and any(raw_value(x) for x in atom[2:]) and any(is_param(x, "value") for x in atom[2:]):
                same = pol
            if atom[0] == "call" and atom[2].endswith("isnan") and is_param(atom[4][0], "value"):
                nan = pol
        if notifies:
            first = names.index("notify")
            if "store" not in names[:first] or "ts" not in names[:first]:
                bad("R2-order", path, "a callback runs before the value and its timestamp are in place")
            if same is not False:
                bad("R2-changed", path, "a callback runs without the value having changed")
            if is_float and nan is not False:
                bad("R2-nan", path, "a callback may be handed NaN")
            for _, args, _f in notifies:
                if len(args) != 2 or not raw_value(args[0]) or not is_param(args[1], "value"):
                    bad("R2-args", path, f"callback gets {[T.path(a) for a in args]}, not (old value, new value)")
        else:
            idle = same is True or nan is True or "empty" in names
            idle = idle or any(not pol and self_attr(atom, "callbacks") for atom, pol in facts_of(st))
            if not idle:
                bad("R2-missed", path, "a changed value is not reported to registered callbacks")
        # Live iteration isn't disturbed.
        live = [i for i, x in enumerate(path.labels) if x == ("iter", True)]
        for i, x in enumerate(path.labels):
            if x[0] == "drop" and any(j > i for j in live):
                bad("R2-iterate", path, "a registration is removed while registrations are being iterated")
        # One-shot callbacks.
        cur = None
        for x in path.labels:
            if x[0] == "iter":
                cur = []
            elif x[0] in ("queue", "drop", "notify") and cur is not None:
                cur.append(x)
            elif x[0] == "end" and cur is not None:
                retired = [y for y in cur if y[0] in ("queue", "drop")]
                told = any(y[0] == "notify" for y in cur)
                if told and retired and x[1] is not True:
                    bad("R2-once", path, "a lasting registration is removed after its callback")
                if told and not retired and x[1] is True:
                    bad("R2-once", path, "a one-shot registration survives its callback")
                if told and not retired and x[1] is None and not late_drop(path):
                    bad("R2-once", path, "one-shot registrations aren't told from lasting ones")
                cur = None
    for path in tr.exc:
        if path.has("notify") and not (path.has("store") and path.has("ts")):
            bad("R2-order", path, "a callback runs before the value is in place")
    has = {n for path in tr.ret for n in path.names()}
    for rule in ("R2-store", "R2-stamp", "R2-order", "R2-changed", "R2-args", "R2-missed", "R2-iterate", "R2-once"):
        ctx.ob(rule, name, True)
    ctx.ob("R2-missed", f"{name}/some", "notify" in has, "no path of a write ever runs a callback", func.where)
    ctx.ob("R2-once", f"{name}/some", "drop" in has, "no path of a write ever retires a one-shot registration", func.where)


def label_mut(e):
    if e.kind == "call" and e.ev.func is not None and e.ev.func.name == "set_value" and e.ev.recv is not None:
        return ("set", T.strip(e.ev.recv), e.ev.param("value"), e.ev.param("timestamp_ns"))
    return None


def check_mutator(ctx, cls, func, what, expect) -> None:
    """Each mutator funnels into set_value with the right value."""
    tr = ctx.trace(func, label_mut, cls, opaque=lambda it, ev: ev.func is not None and ev.func.name in ("set_value", "invert"))
    key = f"{cls.qual}.{what}"
    for path in tr.ret:
        msg = expect(path, path.get("set"))
        if msg:
            ctx.ob("R3", key, False, msg, func.where, path.show())
    ctx.ob("R3", key, any(path.has("set") for path in tr.ret), "never writes", func.where)


def single(pred, text, stamp=False, ret=False):
    def check(path, sets):
        if len(sets) != 1:
            return f"{len(sets)} writes on a path, expected one"
        if sets[0][1][0] != "self":
            return "writes another instance"
        if not pred(sets[0][2]):
            return f"writes {T.path(sets[0][2])}, expected {text}"
        if ret and not (path.val == sets[0][2] or raw_value(T.strip(path.val)) or self_attr(T.strip(path.val), "value")):
            return f"returns {T.path(path.val)}, not the new value"
        if stamp and not is_param(sets[0][3], "timestamp_ns"):
            return "the given timestamp is dropped"
        return None

    return check


def optional(path, sets):
    """Callable interface: write when given."""
    none = None
    for atom, pol in facts_of(path.st):
        if atom[0] == "isnone" and is_param(atom[1], "value"):
            none = pol
    if none is True and sets:
        return "writes without a value"
    if none is not True:
        if none is None:
            return "writes whether or not a value is given"
        return single(lambda v: is_param(v, "value"), "the given value", ret=True)(path, sets)
    return None if raw_value(T.strip(path.val)) or self_attr(T.strip(path.val), "value") else f"returns {T.path(path.val)}, not the value"


def run(ctx) -> None:
    p = ctx.p
    ctx.rule("R1", "only set_value stores into a primitive's raw storage (type-resolved over every function)")
    for name, text in {
        "R2-store": "set_value stores the given value exactly once on every completing path",
        "R2-stamp": "set_value stamps the given time, or the instance's time source when none is given, exactly once",
        "R2-order": "timestamp and store precede any callback",
        "R2-changed": "a callback runs only when the stored value differs from the new one",
        "R2-nan": "NaN is never handed to a callback",
        "R2-args": "a callback receives (old value, new value)",
        "R2-missed": "a changed value reaches registered callbacks on every path",
        "R2-iterate": "registrations aren't removed while being iterated in place",
        "R2-once": "one-shot registrations are removed after delivery, others are kept",
        "R3": "every mutator funnels into set_value with the value its contract names",
        "R4": "register_callback returns the fresh key it stored; remove_callback deletes exactly that key and reports it",
        "R5": "registration state is touched only by register/remove",
    }.items():
        ctx.rule(name, text)

    prim = ctx.anchor_cls("R2-store", PRIM)
    setter = ctx.anchor_func("R2-store", SET)
    if prim is None or setter is None:
        return

    classes = [c for c in concrete(p, PRIM)]
    leaves = [c for c in classes if ctx.thorough or c.qual in (PRIM,) or "set_value" in c.methods or "_check_callbacks" in c.methods or any(n in c.methods for n in prim.methods if n not in ("__init__", "__copy__", "value"))]
    names = {c.qual for c in leaves}
    for extra in ("runtimepy.primitives.int.Uint8Primitive", "runtimepy.primitives.bool.BooleanPrimitive", "runtimepy.primitives.float.FloatPrimitive"):
        if extra not in names and p.cls(extra):
            leaves.append(p.cls(extra))
    ctx.floor("R2-store", "primitive classes", len(classes), 15)
    for cls in leaves:
        check_set(ctx, cls)

    # R3.
    vset = p.lookup_setter(prim, "value")
    ctx.ob("R3", "anchor/value.setter", vset is not None, "the value setter is gone")
    if vset is not None:
        check_mutator(ctx, prim, vset, "value", single(lambda v: is_param(v, vset.params()[1].arg), "the given value"))
    sset = p.lookup_setter(prim, "scaled")
    if sset is not None:
        def inverted(v):
            return T.contains(v, lambda t: t[0] == "call" and t[2].split(".")[-1] == "invert" and any(is_param(a, sset.params()[1].arg) for a in [*t[4], *(x for _, x in t[5])]))
        check_mutator(ctx, prim, sset, "scaled", single(inverted, "the inverted value"))
    call = p.lookup(prim, "__call__")
    if call is not None:
        check_mutator(ctx, prim, call, "__call__", optional)
    upd = p.lookup(prim, "update")
    if upd is not None:
        def decoded(v):
            return v[0] == "call" and v[2].split(".")[-1] == "decode" and v[4] and is_param(v[4][0], "data")
        check_mutator(ctx, prim, upd, "update", single(decoded, "the decoded data", ret=True))
    bprim = p.cls("runtimepy.primitives.bool.BooleanPrimitive")
    if bprim is not None:
        for meth, val in (("set", T.TRUE), ("clear", T.FALSE)):
            func = p.lookup(bprim, meth)
            if func is not None:
                check_mutator(ctx, bprim, func, meth, single(lambda v, val=val: v == val, T.path(val)))
        func = p.lookup(bprim, "toggle")
        if func is not None:
            check_mutator(ctx, bprim, func, "toggle", single(lambda v: v[0] == "not" and (raw_value(v[1]) or self_attr(v[1], "value")), "the opposite of the stored value"))
    iprim = p.cls("runtimepy.primitives.int.BaseIntPrimitive")
    if iprim is not None:
        func = p.lookup(iprim, "increment")
        if func is not None:
            def added(v):
                return v[0] == "bin" and v[1] == "+" and any(raw_value(x) or self_attr(x, "value") for x in v[2:4]) and any(is_param(x, "amount") for x in v[2:4])
            check_mutator(ctx, iprim, func, "increment", single(added, "the stored value plus the amount", stamp=True, ret=True))
            ctx.ob("R3", "increment/default", default_of(func, "amount") == 1, "the default increment isn't one", func.where)

    # R4.
    reg = ctx.anchor_func("R4", f"{PRIM}.register_callback")
    rem = ctx.anchor_func("R4", f"{PRIM}.remove_callback")

    def lab_reg(e):
        if e.kind == "store" and e.ev.kind == "sub" and self_attr(e.ev.base, "callbacks"):
            return ("add", e.ev.name, e.ev.value)
        if e.kind == "store" and e.ev.kind == "attr" and e.ev.base[0] == "self":
            return ("attr", e.ev.name, e.ev.value)
        if e.kind == "store" and e.ev.kind == "delsub" and self_attr(e.ev.base, "callbacks"):
            return ("drop", e.ev.name, "strict")
        if e.kind == "call" and e.ev.recv is not None and self_attr(e.ev.recv, "callbacks") and e.ev.attr in ("pop", "clear"):
            return ("drop", e.ev.args[0] if e.ev.args else None)
        return None

    counters = set()
    if reg is not None:
        tr = ctx.trace(reg, lab_reg)
        for path in tr.ret:
            adds = path.get("add")
            msg = None
            if len(adds) != 1 or T.strip(adds[0][1]) != T.strip(path.val):
                msg = "the returned identifier isn't the key that was stored"
            else:
                val = adds[0][2]
                key = path.val
                if not (val[0] == "tuple" and len(val[1]) == 2 and is_param(val[1][0], "callback") and is_param(val[1][1], "once")):
                    msg = "the callback and its one-shot flag aren't stored together"
                elif key[0] == "attr" and key[1][0] == "self":
                    counters.add(key[2])
                    bumps = [x for x in path.get("attr") if x[1] == key[2]]
                    want = [b for b in bumps if b[2][0] == "bin" and b[2][1] == "+" and any(T.strip(x) == T.strip(key) for x in b[2][2:4]) and any(x[0] == "const" and isinstance(x[2], int) and x[2] > 0 for x in b[2][2:4])]
                    if len(bumps) != 1 or len(want) != 1:
                        msg = "the identifier isn't retired after use, so it can be handed out again"
                elif key[0] == "bin" or key[0] == "const" or key[0] == "call" and key[2] in ("len", "hash", "id"):
                    # An incremented counter returned after the increment.
                    attrs = {x[1] for x in path.get("attr") if T.strip(x[2]) == T.strip(key)}
                    if not attrs or key[0] != "bin":
                        msg = f"identifier {T.path(key)} isn't unique over the instance's lifetime"
            if msg:
                ctx.ob("R4", "register_callback", False, msg, reg.where, path.show())
        ctx.ob("R4", "register_callback", bool(tr.ret), "never returns", reg.where)
        ctx.ob("R4", "register_callback/default", default_of(reg, "once") is False, "registrations are one-shot unless asked otherwise", reg.where)
    if rem is not None:
        tr = ctx.trace(rem, lab_reg)
        for path in tr.ret:
            drops = path.get("drop")
            known = None
            for atom, pol in facts_of(path.st):
                if atom[0] == "in" and is_param(atom[1], "callback_id") and self_attr(atom[2], "callbacks"):
                    known = pol
            msg = None
            if known is not True and any(len(d) > 2 for d in drops) and not catches_key_error(rem):
                msg = "deletes without knowing that the registration exists"
            elif any(d[1] is None or not is_param(d[1], "callback_id") for d in drops):
                msg = "removes a registration other than the one named"
            elif known is True and not drops:
                msg = "leaves the named registration in place"
            elif known is False and drops:
                msg = "removes a registration that doesn't exist"
            elif known is not None:
                got = truth_of(path.st, path.val)
                if got is not known:
                    msg = f"reports {got} where the registration was {'present' if known else 'absent'}"
            if msg:
                ctx.ob("R4", "remove_callback", False, msg, rem.where, path.show())
        ctx.ob("R4", "remove_callback", any(path.has("drop") for path in tr.ret), "never removes", rem.where)

    # R1 and R5.
    writers = {PRIM + ".set_value"}
    found: list = []
    prim_stores = [0]
    private: dict = {}

    def exempt(base) -> bool:
        """Privately owned primitives that nothing can have a callback on."""
        if base[0] == "attr" and base[1][0] == "self" and base[2].startswith("_"):
            key = (base[1][1], base[2])
            if key not in private:
                private[key] = unexposed(ctx, *key)
            return private[key]
        return False

    def lab_sweep(e):
        owner = e.frame.func
        if e.kind == "store" and e.ev.kind == "attr" and e.ev.name == "value":
            base = e.ev.base
            if base[0] == "attr" and base[2] == "raw" and e.it.is_a(base[1], PRIM):
                types = e.it.type_names(base[1])
                prim_stores[0] += 1
                if all(not (n in p.classes and p.is_subclass(p.classes[n], PRIM)) for n in types):
                    return None
                qual = owner.qual
                if qual in writers or at_home(p, owner, "set_value", cls=PRIM):
                    return None
                if exempt(base[1]):
                    return None
                found.append((qual, e.where, T.path(base)))
        if e.kind == "store" and e.ev.kind == "attr" and (e.ev.name in counters or e.ev.name == "callbacks") and e.it.is_a(e.ev.base, PRIM) and not at_home(p, owner, "__init__", "register_callback"):
            ctx.ob("R5", f"{owner.qual}/{e.ev.name}", False, "registration state is overwritten", e.where)
        if e.kind == "store" and e.ev.kind in ("sub", "delsub") and e.ev.base[0] == "attr" and e.ev.base[2] == "callbacks" and e.it.is_a(e.ev.base[1], PRIM):
            if owner.cls is None or not p.is_subclass(owner.cls, PRIM):
                ctx.ob("R5", f"{owner.qual}/entry", False, "registrations are edited from outside of the primitive", e.where)
        if e.kind == "call" and e.ev.attr in ("clear", "pop", "popitem", "update") and e.ev.recv is not None and e.ev.recv[0] == "attr" and e.ev.recv[2] == "callbacks" and e.it.is_a(e.ev.recv[1], PRIM):
            if owner.cls is None or not p.is_subclass(owner.cls, PRIM):
                ctx.ob("R5", f"{owner.qual}/entry", False, "registrations are edited from outside of the primitive", e.where)
        if e.kind == "call" and e.ev.name == "setattr" and e.ev.args and e.ev.args[0][0] == "attr" and e.ev.args[0][2] == "raw" and e.it.is_a(e.ev.args[0][1], PRIM):
            found.append((owner.qual, e.where, "setattr"))
        return None

    ctx.sweep(lab_sweep)
    for qual, where, text in found:
        ctx.ob("R1", f"{qual}/{text}", False, f"stores into {text}.value directly: the write bypasses timestamp and callbacks", where)
    ctx.ob("R1", "package", True)
    ctx.ob("R5", "package", True)
    ctx.floor("R1", "raw stores of primitives seen", prim_stores[0], 1)
    ctx.counts["exempt private primitives"] = sum(private.values())


def default_of(func, name: str):
    """The constant default of a parameter."""
    import ast

    args = func.node.args
    pos = [*args.posonlyargs, *args.args]
    for arg, dflt in zip(reversed(pos), reversed(args.defaults)):
        if arg.arg == name and isinstance(dflt, ast.Constant):
            return dflt.value
    for arg, dflt in zip(args.kwonlyargs, args.kw_defaults):
        if arg.arg == name and isinstance(dflt, ast.Constant):
            return dflt.value
    return None


def catches_key_error(func) -> bool:
    import ast

    return any(isinstance(n, ast.Name) and n.id == "KeyError" for n in ast.walk(func.node))


def unexposed(ctx, cls_name: str, attr: str) -> bool:
    """
    Determine if a private primitive attribute is never handed to anyone: all
    uses are value reads/writes or truth tests, so no callback can exist.
    """
    import ast

    p = ctx.p
    cls = p.classes[cls_name]
    family = {c.qual for c in p.mro_classes(cls)} | {c.qual for c in p.subclasses(cls_name)}
    for func in p.all_functions():
        parents = {}
        for node in ast.walk(func.node):
            for child in ast.iter_child_nodes(node):
                parents[child] = node
        for node in ast.walk(func.node):
            if not (isinstance(node, ast.Attribute) and node.attr == attr):
                continue
            if func.cls is not None and isinstance(node.value, ast.Name) and node.value.id == "self" and func.cls.qual not in family:
                continue
            if not isinstance(node.value, ast.Name):
                types = p.expr_types(node.value, func, func.cls)
                if types and not any(n in family for n, _ in types):
                    continue
            if isinstance(node.ctx, ast.Store):
                continue
            if not harmless(func, parents, node):
                return False
    return True


def harmless(func, parents: dict, node) -> bool:
    """Determine if a use of a primitive can't hand it to anyone."""
    import ast

    par = parents.get(node)
    if isinstance(par, ast.Attribute) and par.attr in ("raw", "value", "set", "clear", "toggle"):
        return True
    if isinstance(par, (ast.While, ast.If, ast.Assert, ast.UnaryOp, ast.Compare, ast.Expr)):
        return True
    if isinstance(par, (ast.BoolOp, ast.IfExp)):
        if isinstance(par, ast.IfExp) and par.test is node:
            return True
        return harmless(func, parents, par)
    if isinstance(par, ast.Call) and isinstance(par.func, ast.Name) and par.func.id == "bool":
        return True
    # Local variables that are only used in these ways.
    if isinstance(par, ast.Assign) and len(par.targets) == 1 and isinstance(par.targets[0], ast.Name):
        name = par.targets[0].id
        uses = [x for x in ast.walk(func.node) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load)]
        return all(not isinstance(parents.get(x), ast.Assign) and harmless(func, parents, x) for x in uses)
    return False

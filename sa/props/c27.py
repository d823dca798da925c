"""C27: Waiting for, and sampling of values."""

from __future__ import annotations

import ast

from sa import terms as T
from sa.props.c06 import each_return, is_self, opaque_names, own
from sa.props.common import facts_of, is_param

LEVEL = "proof"
EXPLANATION = (
    "What's awaited, registered and returned is followed on all paths of the evaluation interfaces, with a change occurring (or not) while they wait. "
    "Evaluators and callbacks are judged for any arguments. What wrappers pass on is compared with their own parameters."
)

MODULE = "runtimepy.primitives.evaluation"
ENV = "runtimepy.channel.environment.base.BaseChannelEnvironment"
EXPECT = {
    "LESS_THAN": "lt", "LESS_THAN_OR_EQUAL": "le", "EQUAL": "eq", "NOT_EQUAL": "ne", "GREATER_THAN_OR_EQUAL": "ge", "GREATER_THAN": "gt",
}
OLD, NEW, LAST = ("ext", "<old>"), ("ext", "<new>"), ("ext", "<last>")


def run(ctx) -> None:
    R1 = ctx.rule("R1", "A condition is evaluated for the current value, and all changes until it succeeds.")
    R2 = ctx.rule("R2", "Conditions are those that were asked for.")
    R3 = ctx.rule("R3", "All samples are captured and provided, in order.")
    R4 = ctx.rule("R4", "What's asked of an environment is what's asked of the channel.")
    evaluate(ctx, R1)
    conditions(ctx, R2)
    sampling(ctx, R3)
    scopes(ctx, R3)
    wrappers(ctx, R4)
    same_defaults(ctx, R4)


def member(term, name: str) -> bool:
    """EvalResult.<name>"""
    return term is not None and (term[0] == "attr" and term[2] == name and term[1][0] == "class" and term[1][1].endswith("EvalResult") or term[0] == "class" and term[1].endswith("EvalResult." + name))


def result_of(term, *args) -> bool:
    """evaluator(*args)"""
    return term is not None and term[0] == "call" and tuple(T.strip(x) for x in term[4]) == tuple(args)


def judges(ev, *args) -> bool:
    return ev.func is None and tuple(T.strip(x) for x in ev.args) == tuple(args)


def truth(path, *args):
    """The outcome of an evaluation on a path."""
    for atom, pol in facts_of(path.st):
        if result_of(atom, *args):
            return pol
    return None


def registered(ev):
    return ev.func is not None and ev.func.name in ("callback", "register_callback")


def evaluate(ctx, rule) -> None:
    qual = f"{MODULE}.evaluate"
    p = ctx.p
    seen = []

    def label(e):
        if e.kind == "enter" or e.kind == "exit":
            return (e.kind, T.strip(e.term))
        if e.kind == "await":
            return ("await",)
        if e.kind == "call" and registered(e.ev):
            seen.append((T.strip(e.ev.recv) if e.ev.recv else None, tuple(e.ev.args)))
            return ("register", T.strip(e.ev.recv) if e.ev.recv else None, tuple(T.strip(x) for x in e.ev.args))
        if e.kind == "call" and e.ev.attr == "remove_callback":
            return ("remove",)
        if e.kind == "call" and e.ev.attr == "set" and not e.ev.args:
            return ("set", T.strip(e.ev.recv))
        if e.kind == "call" and e.ev.attr == "wait":
            return ("event", T.strip(e.ev.recv))
        if e.kind == "call" and any(is_param(x, "timeout") for x in [*e.ev.args, *e.ev.kwargs.values()]):
            return ("bound",)
        if e.kind == "call" and judges(e.ev, OLD, NEW):
            return ("first",)
        if e.kind == "call" and judges(e.ev, NEW, LAST):
            return ("second",)
        if e.kind == "call" and tuple(e.ev.args) in ((OLD, NEW), (NEW, LAST)) and e.ev.func is not None:
            return ("changed",)
        if e.kind == "handler":
            return ("handler",)
        return None

    def meanwhile(it, ev):
        """Changes that happen while it's waiting."""
        closures = [t for t in it.closures if any(t in args for _, args in seen)]
        return [(c, pair) for c in closures[:1] for pair in ((OLD, NEW), (NEW, LAST))]

    def feasible(path):
        # It's not a success (see 'bool').
        return not any(pol and member(T.strip(atom), "TIMEOUT") for atom, pol in facts_of(path.st))

    def check(path):
        if not feasible(path):
            return None
        now = next((pol for atom, pol in facts_of(path.st) if atom[0] == "call" and len(atom[4]) == 2 and all(T.strip(x)[:1] == ("attr",) and T.strip(x)[2] == "value" and is_param(T.strip(x)[1], "primitive") for x in atom[4])), None)
        if now is None:
            return "the current value isn't evaluated"
        val = path.val
        kinds = [x[0] for x in path.labels]
        if now:
            if "register" in kinds:
                return "waits for a change of a value that's already suitable"
            if not member(T.strip(val), "SUCCESS") and not (val[0] == "call" and len(val[4]) == 2):
                return "a suitable value isn't reported"
            return None
        regs = path.get("register")
        if len(regs) != 1 or not is_param(regs[0][1], "primitive"):
            return "changes aren't observed"
        at = kinds.index("register")
        if "await" in kinds[:at]:
            return "changes are missed between the evaluation and its registration"
        if "await" in kinds and "bound" not in kinds:
            return "waiting isn't limited by the timeout"
        waits, sets = path.get("event"), path.get("set")
        if not waits:
            return "doesn't wait for an event"
        if sets and any(x[1] != waits[0][1] for x in sets):
            return "another event is set"
        first, second = truth(path, OLD, NEW), truth(path, NEW, LAST)
        changes = kinds.count("changed")
        if changes and not path.has("first") or changes > 1 and not first and not path.has("second"):
            return "a change isn't evaluated"
        if path.has("first") and first is None:
            return "a result isn't considered"
        if first:
            if path.has("second"):
                return "a success can be replaced"
            if not sets:
                return "success doesn't end the wait"
            return None if result_of(val, OLD, NEW) or member(T.strip(val), "SUCCESS") else "success isn't reported"
        if second:
            if not sets:
                return "success doesn't end the wait"
            return None if result_of(val, NEW, LAST) or member(T.strip(val), "SUCCESS") else "success isn't reported"
        if sets:
            return "the wait ends without success"
        if member(T.strip(val), "TIMEOUT") or member(T.strip(val), "FAIL"):
            return None
        if result_of(val, OLD, NEW) and first is False or result_of(val, NEW, LAST) and second is False:
            return None
        return "success is reported without it"

    func = ctx.anchor_func(rule, qual)
    if func is None:
        return
    # The first run only learns what's registered.
    ctx.trace(func, label, opaque=opaque_names("callback", "register_callback"))
    tr = each_return(ctx, rule, "result", qual, None, check, label=label, opaque=("callback", "register_callback"), cap=4, invokes={"wait": meanwhile}, raises=lambda it, ev: False if ev.attr == "wait" or is_param(ev.fterm or ("",), "evaluator") else None)
    if tr is None:
        return

    # What was registered is removed, whatever happens.
    bad = next((x for x in tr.all if x.has("register") and not ("exit" in [y[0] for y in x.labels] or x.has("remove"))), None)
    ctx.ob(rule, "released", bad is None, "changes are observed after waiting", func.where, bad.show() if bad else ())
    # All kinds of outcomes exist.
    ctx.ob(rule, "success", any(truth(x, OLD, NEW) for x in tr.ret if feasible(x)), "no change can succeed", func.where)
    ctx.ob(rule, "late", any(truth(x, NEW, LAST) for x in tr.ret if feasible(x)), "only the first change can succeed", func.where)
    ctx.ob(rule, "timeout", any(x.has("handler") for x in tr.ret), "timeouts aren't handled", func.where)
    ctx.ob(rule, "cancelled", any("CancelledError" in str(getattr(x, "exc", x.show()[-1:])) for x in tr.exc), "cancellation doesn't end the wait", func.where)


def evaluators(ctx, rule, key, qual, cls, ask, **bind):
    """The evaluators that some function uses, and its assignments of local names."""
    func = ctx.anchor_func(rule, qual)
    if func is None:
        return [], {}
    found, names, calls = [], {}, []

    def label(e):
        if e.kind in ("call", "coro") and e.ev.func is not None and e.ev.func.name in ask:
            args = bound(e.ev)
            for term in [*args.values()]:
                got = e.it.closures.get(term, (None,))[0]
                if got is not None and got not in found:
                    found.append(got)
            return ("ask", e.ev.func.name, tuple(sorted((k, T.strip(v)) for k, v in args.items())))
        if e.kind == "store" and e.ev.kind == "name":
            names[e.ev.name] = T.strip(e.ev.value)
        return None

    tr = ctx.trace(func, label, ctx.p.cls(cls) if cls else None, opaque=opaque_names("invert", *ask))
    for path in tr.ret:
        asked = set(path.get("ask"))
        if len(asked) != 1:
            calls.append((path, "nothing's waited for" if not asked else "waits twice"))
            continue
        args = dict(next(iter(asked))[2])
        for name, want in bind.items():
            if name not in args or not want(args[name]):
                calls.append((path, f"'{name}' isn't what it's supposed to be"))
        if path.val is None or path.val[0] != "await":
            calls.append((path, "the result isn't returned"))
    ctx.ob(rule, f"{key}/waits", not calls and len(tr.ret) > 0, calls[0][1] if calls else "never returns", func.where, calls[0][0].show() if calls else ())
    return found, names


def bound(ev) -> dict:
    """Arguments of a call by the name of their parameter."""
    args = dict(ev.kwargs)
    params = [x.arg for x in ev.func.params()]
    if params and params[0] == "self":
        params = params[1:]
    args.update(zip(params, ev.args))
    return args


def resolve(term, names: dict):
    """Replace free local names."""
    if not isinstance(term, tuple):
        return term
    if len(term) == 3 and term[0] == "param" and term[2] in names:
        return names[term[2]]
    return tuple(resolve(x, names) for x in term)


def judged(ctx, rule, key, func, names, holds) -> None:
    """SUCCESS is the result if and only if some condition is known to hold."""
    params = [x.arg for x in func.params()]
    if not ctx.ob(rule, f"{key}/params", len(params) == 2, "doesn't take the previous and new value", func.where):
        return
    new = ("param", None, params[1])

    def label(e):
        if e.kind == "call":
            return ("call", e.ev.name, resolve(T.strip(e.ev.fterm) if e.ev.fterm else None, names), tuple(resolve(T.strip(x), names) for x in e.ev.args), tuple((k, resolve(T.strip(v), names)) for k, v in e.ev.kwargs.items()))
        return None

    tr = ctx.trace(func, label, opaque=lambda it, ev: True)
    bad, kinds = None, set()
    for path in tr.ret:
        val = T.strip(path.val)
        got = None
        for atom, pol in facts_of(path.st):
            verdict = holds(resolve(T.strip(atom), names), path.get("call"), params[1])
            if verdict is not None:
                got = pol if verdict else not pol
        kinds.add(got)
        if got is None:
            bad = bad or ("the condition isn't evaluated", path)
        elif got and not member(val, "SUCCESS"):
            bad = bad or ("success isn't reported", path)
        elif not got and not member(val, "FAIL"):
            bad = bad or ("failure isn't reported", path)
    ctx.ob(rule, f"{key}/result", bad is None and kinds >= {True, False}, bad[0] if bad else "has no alternatives", func.where, bad[1].show() if bad else ())


def conditions(ctx, rule) -> None:
    p = ctx.p

    # All operators are those they're named for.
    mod = p.modules.get(MODULE)
    table = {}
    for node in mod.tree.body if mod else []:
        value = getattr(node, "value", None)
        if isinstance(node, (ast.Assign, ast.AnnAssign)) and isinstance(value, ast.Dict) and any(isinstance(k, ast.Attribute) and k.attr in EXPECT for k in value.keys):
            name = node.targets[0] if isinstance(node, ast.Assign) else node.target
            table = {k.attr: (v.attr if isinstance(v, ast.Attribute) else getattr(v, "id", "?")) for k, v in zip(value.keys, value.values)}
            break
    for key, val in EXPECT.items():
        ctx.ob(rule, f"operator/{key}", table.get(key, "").strip("_") == val, f"{key} is {table.get(key)}", f"{MODULE}")
    where = f"{MODULE}.Operator"
    cls = p.cls(where)
    if cls is not None:
        members = {t.id for n in cls.node.body if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)}
        ctx.ob(rule, "operators", members == set(EXPECT), f"{sorted(members ^ set(EXPECT))} without an operator", cls.where)

    # The outcome is a success only if it's that.
    result = p.cls(f"{MODULE}.EvalResult")
    if result is not None:
        each_return(ctx, rule, "bool", f"{MODULE}.EvalResult.__bool__", f"{MODULE}.EvalResult", truthy)

    def compare(atom, calls, new):
        if atom[0] != "call":
            return None
        for _, _, fterm, args, kwargs in calls:
            if args == atom[4] and len(args) == 2 and is_param(args[0], "lhs") and is_param(args[1], new):
                if fterm is not None and fterm[0] in ("sub", "call") and T.contains(fterm, lambda t: is_param(t, "operation")) and T.contains(fterm, lambda t: t[0] == "ext" and t[1].endswith("OPERATOR_MAP")):
                    return True
        return None

    found, names = evaluators(ctx, rule, "compare", f"{MODULE}.compare_latest", None, ("evaluate",), primitive=lambda t: is_param(t, "primitive"), timeout=lambda t: is_param(t, "timeout"))
    ctx.floor(rule, "compare", len(found), 1)
    for func in found:
        judged(ctx, rule, "compare", func, names, compare)

    def close(atom, calls, new):
        if atom[0] != "call" or atom[2] != "math.isclose":
            return None
        pair, options = atom[4], dict(atom[5])
        if len(pair) != 2 or set(options) != {"rel_tol", "abs_tol"} or not all(is_param(v, k) for k, v in options.items()):
            return None
        for a, b in (pair, pair[::-1]):
            if is_param(a, "value") and b[0] == "call" and b[2].endswith(".scale") and is_self(b[3]) and len(b[4]) == 1 and is_param(b[4][0], new):
                return True
        return None

    cls = f"{MODULE}.PrimitiveIsCloseMixin"
    found, names = evaluators(ctx, rule, "isclose", f"{cls}.wait_for_isclose", cls, ("evaluate",), primitive=is_self, timeout=lambda t: is_param(t, "timeout"))
    ctx.floor(rule, "isclose", len(found), 1)
    for func in found:
        judged(ctx, rule, "isclose", func, names, close)

    def same(atom, calls, new):
        if atom[0] == "cmp" and atom[1] in ("==", "is"):
            for a, b in ((atom[2], atom[3]), (atom[3], atom[2])):
                if is_param(a, "state") and is_param(b, new):
                    return True
        return None

    cls = "runtimepy.primitives.bool.BooleanPrimitive"
    found, names = evaluators(ctx, rule, "state", f"{cls}.wait_for_state", cls, ("evaluate",), primitive=is_self, timeout=lambda t: is_param(t, "timeout"))
    ctx.floor(rule, "state", len(found), 1)
    for func in found:
        judged(ctx, rule, "state", func, names, same)

    # Values that are waited for are scaled.
    def inverted(rounds):
        def check(term):
            if is_param(term, "value"):
                # Only possible without scaling, see below.
                return not rounds
            if term[0] != "call" or not term[2].endswith("invert"):
                return False
            args = dict(term[5])
            args.update(zip(("value", "scaling", "should_round"), term[4]))
            if not is_param(args.get("value", ("",)), "value") or not own(args.get("scaling", ("",)), "scaling"):
                return False
            return (args.get("should_round") == ("const", "bool", True)) == rounds

        return check

    for name, rounds in (("int.BaseIntPrimitive", True), ("float.BaseFloatPrimitive", False)):
        cls = f"runtimepy.primitives.{name}"
        evaluators(
            ctx, rule, name, f"{cls}.wait_for_value", cls, ("compare_latest",), primitive=is_self, lhs=inverted(rounds),
            timeout=lambda t: is_param(t, "timeout"), operation=lambda t: is_param(t, "operation"),
        )

    # Without the inverse, there's no scaling.
    def unscaled(path):
        for _, args in path.get("ask"):
            if is_param(dict(args).get("lhs", ("",)), "value"):
                if not any(not pol and own(T.strip(a), "scaling") or pol and a[0] == "isnone" and own(T.strip(a[1]), "scaling") for a, pol in facts_of(path.st)):
                    return "a scaled value is compared with one that isn't"
        return None

    def ask(e):
        if e.kind == "coro" and e.ev.func is not None and e.ev.func.name == "compare_latest":
            return ("ask", tuple((k, T.strip(v)) for k, v in bound(e.ev).items()))
        return None

    cls = "runtimepy.primitives.float.BaseFloatPrimitive"
    each_return(ctx, rule, "scaled", f"{cls}.wait_for_value", cls, unscaled, label=ask, opaque=("compare_latest", "invert"))


def truthy(path):
    val = T.strip(path.val)
    if val[0] == "cmp" and val[1] in ("is", "==") and any(is_self(a) and member(b, "SUCCESS") for a, b in ((val[2], val[3]), (val[3], val[2]))):
        return None
    if val[0] == "const":
        for atom, pol in facts_of(path.st):
            if atom[0] == "cmp" and atom[1] in ("is", "==") and any(is_self(a) and member(T.strip(b), "SUCCESS") for a, b in ((atom[2], atom[3]), (atom[3], atom[2]))):
                return None if val[2] == pol else "the outcome is wrong"
    return "something else is a success"


def is_sample(term, value) -> bool:
    """(<value>, primitive.last_updated_ns)"""
    if term is None or term[0] not in ("tuple",):
        return False
    items = term[1] if len(term) == 2 and isinstance(term[1], tuple) else term[1:]
    if len(items) != 2:
        return False
    stamp = items[1]
    return value(items[0]) and stamp[0] == "attr" and stamp[2] == "last_updated_ns" and is_param(stamp[1], "primitive")


def shared(func) -> dict:
    """Initial values of local names that nested functions assign."""
    names = {x for n in ast.walk(func.node) if isinstance(n, ast.Nonlocal) for x in n.names}
    found = {}
    for node in inside(func.node):
        if isinstance(node, (ast.Assign, ast.AnnAssign)) and isinstance(node.value, ast.Constant):
            for target in node.targets if isinstance(node, ast.Assign) else [node.target]:
                if isinstance(target, ast.Name) and target.id in names:
                    found.setdefault(target.id, node.value.value)
    return found


def sampling(ctx, rule) -> None:
    qual = f"{MODULE}.sample_for"
    func = ctx.anchor_func(rule, qual)
    if func is None:
        return
    put = ("put_nowait",)
    closures = []
    timers = []
    names = shared(func)
    flags = [k for k, v in names.items() if v is True]
    counts = [k for k, v in names.items() if v == 0 and v is not False]
    ctx.ob(rule, "state", len(flags) == 1 and len(counts) == 1, "whether it's sampling, and how many samples there are, isn't tracked", func.where)

    def flag(term) -> bool:
        return any(is_param(term, x) for x in flags)


    def label(e):
        if e.kind == "call" and registered(e.ev):
            closures.extend(e.it.closures[x][0] for x in e.ev.args if x in e.it.closures and e.it.closures[x][0] not in closures)
            return ("register", T.strip(e.ev.recv) if e.ev.recv else None)
        if e.kind == "call" and e.ev.attr in put:
            return ("put", T.strip(e.ev.recv), T.strip(e.ev.args[0]))
        if e.kind == "call" and e.ev.attr in ("get", "get_nowait"):
            return ("get", T.strip(e.ev.recv), e.ev.attr)
        if e.kind in ("call", "after") and any(T.contains(x, lambda t: is_param(t, "timeout")) for x in [*e.ev.args, *e.ev.kwargs.values()]):
            timers.extend((e.it.closures[x][0]) for x in e.ev.args if x in e.it.closures and e.it.closures[x][0] not in timers)
            return ("bound" if e.kind == "after" else "bounding",)
        if e.kind == "call" and e.ev.attr == "cancel":
            return ("cancel",)
        if e.kind == "yield":
            return ("yield", T.strip(e.term) if e.term else None, tuple(facts_of(e.st)))
        if e.kind == "store" and e.ev.kind == "name" and e.ev.name in (*flags, *counts):
            return ("flag" if e.ev.name in flags else "total", T.strip(e.ev.value))
        if e.kind in ("exit", "await"):
            return (e.kind,)
        if e.kind == "iterend":
            return ("end", any(pol and atom[0] == "isnone" and source(T.strip(atom)) for atom, pol in facts_of(e.st)))
        return None

    def source(term):
        return T.contains(term, lambda t: t[0] == "call" and t[2].split(".")[-1] in ("get", "get_nowait"))

    def check(path):
        kinds = [x[0] for x in path.labels]
        regs = path.get("register")
        if len(regs) != 1 or not is_param(regs[0][1], "primitive"):
            return "changes aren't observed"
        at = kinds.index("register")
        if "await" in kinds[:at] or "yield" in kinds[:at]:
            return "samples are missed before changes are observed"
        puts = path.get("put")
        wants = next((pol for atom, pol in facts_of(path.st) if is_param(atom, "current")), None)
        ends, totals = path.get("flag"), path.get("total")
        if not ends or ends[0][1] != ("const", "bool", True) or not totals or totals[0][1] != ("const", "int", 0):
            return "sampling doesn't start"
        if wants is None:
            return "whether the current value is wanted isn't considered"
        if wants and (len(puts) != 1 or not is_sample(puts[0][2], lambda t: t[0] == "attr" and t[2] == "value" and is_param(t[1], "primitive"))):
            return "the current value isn't a sample"
        if not wants and puts:
            return "the current value is a sample"
        if wants and len(totals) != 2 or not wants and len(totals) != 1:
            return "the current value isn't counted"
        if wants:
            msg = limit(path, ends[1:], counts)
            if msg:
                return msg
        queues = {x[1] for x in path.labels if x[0] in ("put", "get")}
        if len(queues) > 1:
            return "samples come from another queue"
        for item in path.get("yield"):
            if item[1] is None or not source(item[1]):
                return "something else is provided as a sample"
            if timers and not any(not pol and atom[0] == "isnone" and T.strip(atom[1]) == item[1] for atom, pol in item[2]):
                return "something else is provided as a sample"
        # Nothing remains.
        if "exit" in kinds:
            done = any(pol and atom[0] == "call" and atom[2].split(".")[-1] == "empty" for atom, pol in facts_of(path.st))
            if not done:
                return "captured samples can be lost"
        return None

    tr = each_return(ctx, rule, "samples", qual, None, check, label=label, opaque=("callback", "register_callback"), cap=3)
    if tr is None:
        return
    ctx.floor(rule, "observers", len(closures), 1)

    # Everything that's taken from the queue is provided.
    bad = None
    total = 0
    for path in tr.all:
        items = [x for x in path.labels if x[0] in ("get", "yield") or x == ("end", True)]
        for one, two in zip(items, items[1:]):
            if one[0] == "get":
                total += 1
                # A sentinel isn't provided.
                if two[0] == "get":
                    bad = bad or path
    ctx.ob(rule, "provided", bad is None and total > 0, "a captured sample isn't provided", func.where, bad.show() if bad else ())

    # Samples are provided while it's still sampling.
    early = any(x[0] == "yield" and "exit" not in [y[0] for y in path.labels[:i]] and "await" in [y[0] for y in path.labels[:i]] for path in tr.all for i, x in enumerate(path.labels))
    ctx.ob(rule, "immediate", early, "samples aren't provided while sampling", func.where)

    # Waiting is limited, on all paths that wait.
    bad = next((x for x in tr.all if "await" in [y[0] for y in x.labels] and not before(x, "bound", "await")), None)
    ctx.ob(rule, "limited", bad is None, "sampling isn't limited by the timeout", func.where, bad.show() if bad else ())
    if timers:
        bad = next((x for x in tr.all if x.has("bound") and not x.has("cancel")), None)
        ctx.ob(rule, "timer", bad is None, "a timer is left behind", func.where, bad.show() if bad else ())

    def one(e):
        if e.kind == "call" and e.ev.attr in put:
            return ("put", T.strip(e.ev.args[0]))
        if e.kind == "store" and e.ev.kind == "name" and e.ev.name in flags:
            return ("flag", T.strip(e.ev.value), tuple((T.strip(a), pol) for a, pol in facts_of(e.st)))
        return None

    for item in closures:
        params = [x.arg for x in item.params()]

        def sample(path):
            keep = next((pol for atom, pol in facts_of(path.st) if flag(T.strip(atom))), None)
            puts = path.get("put")
            if keep is None:
                return "samples are captured after sampling ended"
            if keep is False:
                return "samples are captured after sampling ended" if puts else None
            if len(puts) != 1:
                return "a change isn't a sample"
            if not is_sample(puts[0][1], lambda t: is_param(t, params[1])):
                return "a sample isn't the new value and its time"
            return limit(path, path.get("flag"), counts)

        tr = ctx.trace(item, one)
        bad = None
        for path in tr.ret:
            msg = sample(path)
            if msg and bad is None:
                bad = (msg, path)
        ctx.ob(rule, "captured", bad is None and len(tr.ret) > 0, bad[0] if bad else "never returns", item.where, bad[1].show() if bad else ())

    for item in timers:
        tr = ctx.trace(item, one)
        bad = next((x for x in tr.ret if not (x.get("flag") and x.get("flag")[-1][1] == ("const", "bool", False)) or not x.get("put")), None)
        ctx.ob(rule, "expires", bad is None and len(tr.ret) > 0, "sampling doesn't end with the timeout", item.where, bad.show() if bad else ())


def before(path, first, second) -> bool:
    kinds = [x[0] for x in path.labels]
    return first in kinds and kinds.index(first) < kinds.index(second)


def limit(path, ends, counts):
    """Sampling ends when 'count' (if positive) samples were captured."""
    facts = {}
    for atom, pol in facts_of(path.st):
        atom = T.strip(atom)
        if atom[0] == "cmp" and T.contains(atom, lambda t: is_param(t, "count")):
            facts[atom] = pol
    if any(x[1] != ("const", "bool", False) for x in ends):
        return "sampling doesn't end"
    positive = reached = None
    for atom, pol in facts.items():
        if atom[1] != "<":
            continue
        if atom[2] == ("const", "int", 0) and is_param(atom[3], "count"):
            positive = pol
        elif is_param(atom[3], "count") and counted(atom[2], counts):
            # samples < count
            reached = not pol
    if ends and not (positive and reached):
        return "sampling ends early"
    if not ends and (reached and positive is not False or reached is None and positive is not False):
        return "sampling doesn't end with the last sample"
    return None


def counted(term, counts) -> bool:
    if term == ("const", "int", 1):
        return True
    return term[0] == "bin" and term[1] == "+" and T.contains(term, lambda t: any(is_param(t, x) for x in counts)) and T.contains(term, lambda t: t == ("const", "int", 1))


TIMEOUTS = ("timeout", "timeout_at")


def scopes(ctx, rule) -> None:
    """A timeout that spans a yield interrupts whoever consumes values."""
    count = 0
    for func in ctx.p.functions.values():
        if not isinstance(func.node, ast.AsyncFunctionDef):
            continue
        if not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in inside(func.node)):
            continue
        if any(ast.unparse(d).split(".")[-1].split("(")[0].lstrip("_") == "asynccontextmanager" for d in func.node.decorator_list):
            continue
        count += 1
        bad = None
        for node in inside(func.node):
            if isinstance(node, ast.AsyncWith) and any(isinstance(i.context_expr, ast.Call) and ast.unparse(i.context_expr.func).split(".")[-1] in TIMEOUTS for i in node.items):
                if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for s in node.body for n in [s, *inside(s)]):
                    bad = node
        ctx.ob(rule, f"scope/{func.qual.removeprefix('runtimepy.')}", bad is None, "the timeout also limits whoever uses what's provided", func.where)
    ctx.floor(rule, "generators", count, 5)


def inside(node):
    """Nodes that aren't part of a nested function."""
    for child in ast.iter_child_nodes(node):
        if isinstance(child, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        yield child
        yield from inside(child)


# Methods, what they use to wait and what's passed besides parameters of the same name.
WAITS = {
    "wait_for_bool": ("wait_for_state", ("state", "timeout")),
    "wait_for_numeric": ("wait_for_value", ("value", "timeout", "operation")),
    "wait_for_numeric_isclose": ("wait_for_isclose", ("value", "timeout", "rel_tol", "abs_tol")),
}
SAMPLES = ("sample_int_for", "sample_float_for", "sample_bool_for", "sample_enum_for")
GETS = ("get_bool", "get_int", "get_float", "__getitem__", "get")


def looked_up(term) -> bool:
    """The primitive of the channel with a key."""
    if term[0] != "attr" or term[2] != "raw":
        return False
    term = term[1]
    if term[0] == "call" and term[2].split(".")[-1] == "cast":
        term = term[4][-1]
    if term[0] == "sub":
        if term[2] != ("const", "int", 0):
            return False
        term = term[1]
    elif not (term[0] == "call" and term[2].endswith("get_float")) and not (term[0] in ("item", "unpack", "elem")):
        return False
    return T.contains(term, lambda t: is_param(t, "key")) and not T.contains(term, lambda t: t[0] == "const" and t[1] == "str")


def wrappers(ctx, rule) -> None:
    p = ctx.p
    opaque = ("wait_for_state", "wait_for_value", "wait_for_isclose", "wait_for_bool", "sample_for", "as_bool", "as_int", "get_str", "scale", *GETS)
    formals = {
        "wait_for_state": "runtimepy.primitives.bool.BooleanPrimitive", "wait_for_value": "runtimepy.primitives.int.BaseIntPrimitive",
        "wait_for_isclose": f"{MODULE}.PrimitiveIsCloseMixin", "wait_for_bool": ENV,
    }
    for name, cls in list(formals.items()):
        func = p.lookup(p.need_cls(cls), name)
        formals[name] = [x.arg for x in func.params()][1:]

    def label(e):
        if e.kind == "call" and e.ev.attr in formals:
            args = dict(zip(formals[e.ev.attr], e.ev.args))
            args.update(e.ev.kwargs)
            return ("ask", e.ev.attr, T.strip(e.ev.recv), tuple(sorted((k, T.strip(v)) for k, v in args.items())))
        return None

    for name, (uses, params) in WAITS.items():

        def check(path, uses=uses, params=params):
            asked = sorted(set(path.get("ask")), key=str)
            if len(asked) != 1 or asked[0][1] != uses:
                return "nothing's waited for"
            _, _, recv, args = asked[0]
            args = dict(args)
            if not looked_up(recv):
                return "something else is waited for"
            for param in params:
                if param not in args or not is_param(args[param], param):
                    return f"'{param}' isn't used"
            if set(args) - set(params):
                return "other arguments are used"
            return None if path.val is not None and path.val[0] == "await" else "the result isn't returned"

        each_return(ctx, rule, name, f"{ENV}.{name}", ENV, check, label=label, opaque=opaque)

    def translated(term, method):
        return term is not None and term[0] == "call" and term[2].split(".")[-1] == method and len(term[4]) == 1 and is_param(term[4][0], "value") and T.contains(term[3], lambda t: is_param(t, "key"))

    def enum(path):
        asked = sorted(set(path.get("ask")), key=str)
        if len(asked) != 1:
            return "nothing's waited for"
        _, name, recv, args = asked[0]
        args = dict(args)
        binary = next((pol for atom, pol in facts_of(path.st) if T.strip(atom)[0] == "attr" and T.strip(atom)[2] == "is_boolean"), None)
        if not is_param(args.get("timeout", ("",)), "timeout"):
            return "'timeout' isn't used"
        if binary is None:
            return "the kind of enumeration isn't considered"
        if path.val is None or path.val[0] != "await":
            return "the result isn't returned"
        if not any(not pol and atom[0] == "isnone" and (translated(T.strip(atom[1]), "as_bool") or translated(T.strip(atom[1]), "as_int")) for atom, pol in facts_of(path.st)):
            return "something that's not part of the enumeration is waited for"
        if binary:
            if name == "wait_for_bool":
                good = is_self(recv) and is_param(args.get("key", ("",)), "key")
            else:
                good = name == "wait_for_state" and looked_up(recv)
            return None if good and translated(args.get("state"), "as_bool") else "doesn't wait for the value's translation"
        good = name == "wait_for_value" and looked_up(recv)
        return None if good and translated(args.get("value"), "as_int") and set(args) == {"value", "timeout"} else "doesn't wait for the value's translation"

    each_return(ctx, rule, "wait_for_enum", f"{ENV}.wait_for_enum", ENV, enum, label=label, opaque=opaque)

    sample = p.func(f"{MODULE}.sample_for")
    params = [x.arg for x in sample.params()]

    def sampled(e):
        if e.kind == "call" and e.ev.func is not None and e.ev.func.name == "sample_for":
            return ("sample", tuple(sorted((k, T.strip(v)) for k, v in bound(e.ev).items())))
        if e.kind == "yield":
            return ("yield", T.strip(e.term) if e.term else None, tuple((T.strip(a), pol) for a, pol in facts_of(e.st)))
        return None

    for name in SAMPLES:
        count = [0]

        def check(path, name=name, count=count):
            asked = sorted(set(path.get("sample")), key=str)
            if len(asked) != 1:
                return "nothing's sampled"
            args = dict(asked[0][1])
            if set(args) != set(params):
                return "some arguments aren't used"
            if not looked_up(args["primitive"]):
                return "something else is sampled"
            for param in params[1:]:
                if not is_param(args[param], param):
                    return f"'{param}' isn't used"
            for _, val, facts in path.get("yield"):
                count[0] += 1
                if val is None:
                    return "nothing's provided"
                if not sample_like(val):
                    return "samples aren't provided"
                scaled = T.contains(val, lambda t: t[0] == "call" and t[2].split(".")[-1] == "scale")
                wants = next((pol for atom, pol in facts if is_param(atom, "scale")), None)
                if name in ("sample_int_for", "sample_float_for"):
                    if scaled and not wants:
                        return "values are scaled regardless"
                    if not scaled and not unscaled(facts):
                        return "values aren't scaled"
                if name == "sample_enum_for" and not T.contains(val, lambda t: t[0] == "call" and t[2].split(".")[-1] == "get_str"):
                    return "values aren't translated"
            return None

        tr = each_return(ctx, rule, name, f"{ENV}.{name}", ENV, check, label=sampled, opaque=opaque, cap=3)
        ctx.floor(rule, f"{name}/values", count[0], 1)


def sample_like(term) -> bool:
    """A sample, or its value (somehow) with its time."""
    if term[0] == "iter":
        return True
    if term[0] != "tuple":
        return False
    items = term[1] if len(term) == 2 and isinstance(term[1], tuple) else term[1:]
    return len(items) == 2 and T.contains(items[0], lambda t: part(t, 0)) and part(items[1], 1)


def part(term, index: int) -> bool:
    if term[0] == "sub":
        return term[1][0] == "iter" and term[2] == ("const", "int", index)
    return term[0] == "unpack" and term[1][0] == "iter" and term[2] == index


def defaults(func) -> dict:
    args = func.node.args
    names = [x.arg for x in args.args]
    got = dict(zip(names[len(names) - len(args.defaults):], args.defaults))
    got.update({k.arg: v for k, v in zip(args.kwonlyargs, args.kw_defaults) if v is not None})
    return {k: ast.dump(v) for k, v in got.items()}


def unscaled(facts) -> bool:
    """Scaling isn't wanted, or there isn't any."""
    return any(not pol and (is_param(atom, "scale") or T.contains(atom, lambda t: t[0] == "attr" and t[2] == "scaling")) for atom, pol in facts)


def same_defaults(ctx, rule) -> None:
    """What isn't given has the same meaning everywhere."""
    p = ctx.p
    sources = {
        "sample": defaults(p.func(f"{MODULE}.sample_for")), "close": defaults(p.func(f"{MODULE}.PrimitiveIsCloseMixin.wait_for_isclose")),
        "value": defaults(p.func(f"{MODULE}.compare_latest")),
    }
    ctx.ob(rule, "default/count", sources["sample"].get("count") == ast.dump(ast.parse("-1", mode="eval").body), "samples are limited by default", MODULE)
    ctx.ob(rule, "default/current", sources["sample"].get("current") == ast.dump(ast.Constant(True)), "the current value isn't a sample by default", MODULE)
    users = {name: "sample" for name in SAMPLES}
    users.update({"wait_for_numeric": "value", "wait_for_numeric_isclose": "close"})
    for name, kind in users.items():
        func = p.lookup(p.need_cls(ENV), name)
        mine = defaults(func)
        bad = [k for k, v in sources[kind].items() if mine.get(k) != v]
        ctx.ob(rule, f"default/{name}", not bad and mine.get("scale", ast.dump(ast.Constant(True))) == ast.dump(ast.Constant(True)), f"{bad} has another default", func.where)

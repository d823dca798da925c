"""C12: Finalized environments never change, and everything is finalized before it's used."""

from __future__ import annotations

import ast

from sa import terms as T
from sa.props.c06 import arg, attr_of, each_return, is_self, opaque_names, own
from sa.props.c11 import called
from sa.props.common import at_home, current_truth, facts_of, is_param

LEVEL = "proof"
EXPLANATION = (
    "Every call that registers a channel, field or name in an environment is found in the whole program and is either preceded by the check that the environment isn't finalized, on all paths, or part of construction. "
    "Finalization is monotonic, and initialization routines finalize their environment on every exit before they signal completion."
)

MIXIN = "runtimepy.mixins.finalize.FinalizeMixin"
BASE_ENV = "runtimepy.channel.environment.base.BaseChannelEnvironment"
ENV = "runtimepy.channel.environment.create.CreateChannelEnvironment"
FILE_ENV = "runtimepy.channel.environment.file.FileChannelEnvironment"
CONN = "runtimepy.net.connection.Connection"
ARBITER = "runtimepy.net.arbiter.base.BaseConnectionArbiter"
PEER = "runtimepy.subprocess.interface.RuntimepyPeerInterface"
PERIODIC = "runtimepy.task.basic.periodic.PeriodicTask"
ARBITER_TASK = "runtimepy.net.arbiter.task.ArbiterTask"
INFO = "runtimepy.net.arbiter.info.AppInfo"


def run(ctx) -> None:
    R1 = ctx.rule("R1", "Channels and fields are only registered while the environment isn't finalized.")
    R2 = ctx.rule("R2", "Finalization can't be undone, and bypasses end.")
    R3 = ctx.rule("R3", "Fields that were added before finalization are managed afterwards, once.")
    R4 = ctx.rule("R4", "Initialization finalizes the environment, before completion is signaled.")
    R5 = ctx.rule("R5", "What's exported is final, and what's loaded is final if requested.")
    guarded(ctx, R1)
    monotonic(ctx, R2)
    queued(ctx, R3)
    initialized(ctx, R4)
    files(ctx, R5)


def is_env(p, cls) -> bool:
    return cls is not None and any(c.qual == BASE_ENV for c in p.mro_classes(cls))


REGISTERING = ("channel", "register", "register_dict", "register_name")


def registering(term, attr) -> str | None:
    """What kind of registration a call performs on an environment."""
    if term is None:
        return None
    if attr in REGISTERING and (attr_of(term, "channels") or attr_of(term, "names") and attr_of(term[1], "channels")):
        return "channel"
    if attr in ("add", "add_field") and attr_of(term, "fields"):
        return "field"
    if attr in ("append", "extend", "insert") and attr_of(term, "to_add"):
        return "queue"
    return None


def guarded(ctx, rule) -> None:
    p = ctx.p
    cls = ctx.anchor_cls(rule, ENV)
    if cls is None:
        return

    def label(e):
        if e.kind == "call" and e.ev.recv is not None:
            recv = T.strip(e.ev.recv)
            kind = registering(recv, e.ev.attr)
            if kind:
                env = recv
                while env[0] == "attr" and env[2] in ("channels", "names", "fields", "to_add"):
                    env = env[1]
                open_ = any(pol is False and (attr_of(atom, "finalized") and atom[1] == env or called(atom, "finalized")) for atom, pol in facts_of(e.st))
                return ("register", kind, open_)
        return None

    found = 0
    for func in p.all_functions():
        sites = []
        for node in ast.walk(func.node):
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
                base = node.func.value
                if isinstance(base, ast.Attribute):
                    attr = node.func.attr
                    if attr in REGISTERING and (base.attr == "channels" or base.attr == "names" and isinstance(base.value, ast.Attribute) and base.value.attr == "channels"):
                        sites.append(node)
                    elif attr in ("add", "add_field") and base.attr == "fields" and is_env(p, func.cls):
                        sites.append(node)
                    elif attr in ("append", "extend", "insert") and base.attr == "to_add":
                        sites.append(node)
        if not sites:
            continue
        if not is_env(p, func.cls):
            # Loading is the only other place that touches registries.
            for node in sites:
                ctx.ob(rule, f"site/{func.qual}", False, "an environment's registries are changed from outside", f"{func.module.rel}:{node.lineno}")
            continue
        found += len(sites)
        if at_home(p, func, "__init__", "finalize"):
            continue
        if func.name.startswith("_") and at_home(p, func, "__init__", "finalize", "channel", "add_field"):
            # Judged as part of these.
            continue
        tr = ctx.trace(func, label, cls, opaque=opaque_names("finalized", "channel", "add_field", "add", "has_field", "namespace"))
        bad = next((x for x in tr.all for item in x.get("register") if not item[2]), None)
        seen = any(x.has("register") for x in tr.all)
        ctx.ob(rule, f"guard/{func.qual}", bad is None and seen, "a finalized environment can be changed", func.where, bad.show() if bad else ())
    ctx.floor(rule, "registrations in environments", found, 5)


def monotonic(ctx, rule) -> None:
    p = ctx.p
    cls = ctx.anchor_cls(rule, MIXIN)
    if cls is None:
        return
    count = 0
    for func in p.all_functions():
        inside = func.cls is not None and any(c.qual == MIXIN for c in p.mro_classes(func.cls))
        for node in ast.walk(func.node):
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Attribute) and node.func.value.attr == "_finalized" and node.func.attr in ("set", "clear"):
                count += 1
                ok = node.func.attr == "set" and inside and at_home(p, func, "finalize")
                ctx.ob(rule, f"event/{func.qual}", ok, "finalization is changed elsewhere", f"{func.module.rel}:{node.lineno}")
            targets = node.targets if isinstance(node, ast.Assign) else [node.target] if isinstance(node, (ast.AnnAssign, ast.AugAssign)) else []
            for item in targets:
                if isinstance(item, ast.Attribute) and item.attr == "_finalized_bypass":
                    count += 1
                    ctx.ob(rule, f"bypass/{func.qual}", at_home(p, func, "__init__", "bypass_finalized", cls=MIXIN), "the bypass is changed elsewhere", f"{func.module.rel}:{node.lineno}")
                if isinstance(item, ast.Attribute) and item.attr == "_finalized" and inside:
                    count += 1
                    ctx.ob(rule, f"state/{func.qual}", at_home(p, func, "__init__", cls=MIXIN), "finalization is replaced", f"{func.module.rel}:{node.lineno}")
    ctx.floor(rule, "changes of finalization", count, 5)

    def is_set(t):
        return called(t, "is_set") and own(t[3], "_finalized")

    def state(path):
        val = T.strip(path.val)
        facts = facts_of(path.st)
        bypass = next((pol for atom, pol in facts if own(atom, "_finalized_bypass")), None)
        final = next((pol for atom, pol in facts if is_set(atom)), None)
        if val[0] == "const":
            if val[2]:
                return None if bypass is False and final else "it's reported as finalized too early"
            return None if bypass or final is False else "it's not reported as finalized"
        if is_set(val):
            return None if bypass is False else "the bypass has no effect"
        if val[0] == "not" and own(val[1], "_finalized_bypass"):
            return None if final else "it's reported as finalized too early"
        return f"{T.path(val)} is returned"

    each_return(ctx, rule, "finalized", f"{MIXIN}.finalized", MIXIN, state)

    def label(e):
        if e.kind == "call" and e.ev.attr in ("set", "is_set") and e.ev.recv is not None and own(T.strip(e.ev.recv), "_finalized"):
            if e.ev.attr == "set":
                return ("set",)
        if e.kind == "store" and e.ev.kind == "attr" and e.ev.name == "_finalized_bypass":
            return ("bypass", T.strip(e.ev.value))
        if e.kind == "yield":
            now = current_truth(e.st, e.frame.self_term, "_finalized_bypass")
            return ("yield", now)
        return None

    def finalize(path):
        if not path.has("set"):
            return "it isn't finalized"
        strict = next((pol for atom, pol in facts_of(path.st) if is_param(atom, "strict")), None)
        before = next((pol for atom, pol in facts_of(path.st) if attr_of(atom, "finalized") or called(atom, "finalized") or is_set(atom)), None)
        bypass = next((pol for atom, pol in facts_of(path.st) if own(atom, "_finalized_bypass")), None)
        if strict is not False and before is not False and not bypass:
            return "it can be finalized twice"
        return None

    each_return(ctx, rule, "finalize", f"{MIXIN}.finalize", MIXIN, finalize, label=label)

    func = ctx.anchor_func(rule, f"{MIXIN}.bypass_finalized")
    if func is not None:
        tr = ctx.trace(func, label, cls)
        bad = None
        seen = False
        for path in tr.all:
            if not path.has("yield"):
                continue
            seen = True
            if path.get("yield")[0][1] is not True:
                bad = bad or ("the bypass has no effect", path)
            last = path.get("bypass")[-1:] if path.has("bypass") else []
            if not last or last[0][1] != ("const", "bool", False) or path.index("yield") > max(i for i, x in enumerate(path.labels) if x[0] == "bypass"):
                bad = bad or ("the bypass stays active", path)
        ctx.ob(rule, "bypass", bad is None and seen, bad[0] if bad else "it can't be bypassed", func.where, bad[1].show() if bad else ())

    def waits(path):
        return None if path.has("waited") else "waiting ends before finalization"

    def label2(e):
        if e.kind == "await" and T.strip(e.term)[0] in ("call", "coro") and "wait" in str(e.term) and "_finalized" in str(e.term):
            return ("waited",)
        return None

    each_return(ctx, rule, "wait_finalized", f"{MIXIN}.wait_finalized", MIXIN, waits, label=label2)


def queued(ctx, rule) -> None:
    def label(e):
        if e.kind == "call" and e.ev.recv is not None:
            recv = T.strip(e.ev.recv)
            if e.ev.attr == "add" and own(recv, "fields"):
                return ("add", T.strip(e.ev.args[0]))
            if own(recv, "to_add") and e.ev.attr in ("clear", "append", "pop", "remove", "extend", "insert"):
                return (e.ev.attr, T.strip(e.ev.args[0]) if e.ev.args else None)
            if e.ev.attr == "add_field" and own(recv, "fields"):
                return ("field", T.strip(e.ev.args[0]))
        if e.kind == "call" and e.ev.attr and e.ev.attr.split(".")[-1] == "finalize":
            value = T.strip(e.ev.args[0] if e.ev.args else e.ev.kwargs.get("strict", ("const", "bool", True)))
            return ("final", value)
        if e.kind == "store" and e.ev.kind == "attr" and e.ev.name == "to_add":
            return ("clear", None)
        if e.kind == "iterend":
            return ("end", T.strip(e.term))
        return None

    def finalize(path):
        finals = path.get("final")
        if len(finals) != 1:
            return "it isn't finalized"
        if not is_param(finals[0][1], "strict"):
            return "strict isn't passed on"
        ends = [x for x in path.get("end") if own(x[1], "to_add")]
        adds = path.get("add")
        if len(ends) != len(adds) or any(not T.contains(x[1], lambda t: own(t, "to_add")) for x in adds):
            return "not all of the fields are added"
        if not path.has("clear") or adds and path.index("clear") < path.index("add"):
            return "fields can be added twice"
        return None

    tr = each_return(ctx, rule, "finalize", f"{BASE_ENV}.finalize", BASE_ENV, finalize, label=label, opaque=("add", "finalize"), cap=3)
    if tr is not None:
        ctx.ob(rule, "finalize/adds", any(x.has("add") for x in tr.ret), "added fields are never managed", tr.func.where)

    def add_field(path):
        fields = path.get("field")
        if len(fields) != 1 or not is_param(fields[0][1], "field"):
            return "the field isn't added"
        result = lambda t: called(t, "add_field")  # noqa: E731
        none = next((pol for atom, pol in facts_of(path.st) if atom[0] == "isnone" and result(atom[1])), None)
        appended = path.get("append")
        if none is None:
            return "new fields aren't distinguished"
        if none:
            return "None is queued" if appended else None
        return None if len(appended) == 1 and result(appended[0][1]) else "new fields aren't queued"

    each_return(ctx, rule, "add_field", f"{BASE_ENV}.add_field", BASE_ENV, add_field, label=label, opaque=("add_field", "namespace", "finalized"))


def initialized(ctx, rule) -> None:
    p = ctx.p

    # Connections.
    def label(e):
        if e.kind == "call" and e.ev.attr == "finalize" and e.ev.recv is not None and attr_of(T.strip(e.ev.recv), "env"):
            return ("final", T.strip(e.ev.recv), strictness(e))
        if e.kind == "call" and e.ev.attr == "set" and e.ev.recv is not None and attr_of(T.strip(e.ev.recv), "initialized"):
            return ("ready",)
        if e.kind == "call" and e.ev.attr == "disable" and is_self(T.strip(e.ev.recv)):
            return ("disabled",)
        return None

    def strictness(e):
        value = T.strip(e.ev.args[0] if e.ev.args else e.ev.kwargs.get("strict", ("const", "bool", True)))
        return value

    cls = ctx.anchor_cls(rule, CONN)
    func = ctx.anchor_func(rule, f"{CONN}._async_init")
    if cls is not None and func is not None:
        def steady(it, ev):
            return None if ev.func is not None and ev.func.name == "async_init" or ev.attr == "async_init" else False

        tr = ctx.trace(func, label, cls, opaque=opaque_names("async_init", "disable", "finalize"), raises=steady)
        bad = None
        for path in tr.all:
            if not path.count("ready"):
                bad = bad or ("the end of the initialization isn't signaled", path)
            elif not path.count("final"):
                bad = bad or ("initialization completes without finalizing", path)
            elif path.count("final") and path.count("ready") and path.index("final") > path.index("ready"):
                bad = bad or ("completion is signaled before finalizing", path)
            elif (path in tr.exc or any(pol is False and atom[0] != "isnone" and "async_init" in str(atom) for atom, pol in facts_of(path.st))) and not path.has("disabled"):
                bad = bad or ("a connection stays enabled though its initialization failed", path)
            elif any(x[2] != ("const", "bool", False) for x in path.get("final")):
                bad = bad or ("a connection that finalized itself fails", path)
        ctx.ob(rule, "connection", bad is None and len(tr.ret) > 0 and len(tr.exc) > 0, bad[0] if bad else "never returns", func.where, bad[1].show() if bad else ())

    # Structs and tasks of an application.
    def label2(e):
        if e.kind == "call" and e.ev.attr == "finalize" and e.ev.recv is not None and attr_of(T.strip(e.ev.recv), "env"):
            return ("final", T.strip(e.ev.recv)[1], strictness(e))
        if e.kind == "iterend":
            return ("end", T.strip(e.term))
        if e.kind == "loop":
            return ("loop", T.strip(e.term), e.extra)
        if e.kind == "await" and "gather" in str(e.term):
            return ("gathered",)
        if e.kind == "call" and e.ev.attr in ("running", "_run_apps_list"):
            return ("start", e.ev.attr)
        return None

    opq = ("finalize", "build", "init", "log_time", "_setup_server_json", "_run_apps_list", "_start_processes", "_build_structs", "_init_connections", "_register_envs", "clear_env", "running")
    for name, func_name, container in (("structs", "_build_structs", "_structs"), ("tasks", "_main", "tasks")):
        func = ctx.anchor_func(rule, f"{ARBITER}.{func_name}")
        if func is None:
            continue

        def source(t, container=container):
            return T.contains(t, lambda x: attr_of(x, container))

        tr = ctx.trace(func, label2, p.cls(ARBITER), opaque=lambda it, ev, n=func_name: ev.func is not None and ev.func.name in opq and ev.func.name != n, cap=2)
        bad = None
        seen = False
        for path in tr.ret:
            finals = [(i, x) for i, x in enumerate(path.labels) if x[0] == "final"]
            seen = seen or bool(finals)
            lap = 0
            done = False
            for item in path.labels:
                if item[0] == "final":
                    lap += 1
                    if item[2] != ("const", "bool", False):
                        bad = bad or ("something that finalized itself fails", path)
                elif item[0] == "end" and source(item[1]):
                    # Loops that do something else don't count.
                    if lap > 1:
                        bad = bad or ("something is finalized twice", path)
                    lap = 0
            starts = [i for i, x in enumerate(path.labels) if x[0] == "start"]
            if finals and starts and min(starts) < finals[-1][0]:
                bad = bad or ("it's started before it's final", path)
            gathered = [i for i, x in enumerate(path.labels) if x[0] == "gathered"]
            if finals and (not gathered or gathered[-1] > finals[0][0] and name == "structs"):
                bad = bad or ("it's finalized before it's initialized", path)
            del done
        # Each iteration of the finalizing loop finalizes.
        skipped = None
        loops = finalizing_loops(func)
        ctx.ob(rule, f"{name}/loop", len(loops) > 0, f"{name} aren't finalized", func.where)
        for path in tr.ret:
            if skipped is None and any(x[0] == "end" and source(x[1]) for x in path.labels):
                ends = [x for x in path.labels if x[0] == "end" and source(x[1])]
                if len(ends) > len(path.get("final")) and not other_loops(func):
                    skipped = path
        ctx.ob(rule, f"{name}/all", skipped is None, f"some {name} aren't finalized", func.where, skipped.show() if skipped else ())
        ctx.ob(rule, name, bad is None and seen, bad[0] if bad else f"{name} aren't finalized", func.where, bad[1].show() if bad else ())

    # Peers.
    cls = ctx.anchor_cls(rule, PEER)
    if cls is not None:
        def label3(e):
            if e.kind == "call" and e.ev.attr == "finalize" and e.ev.recv is not None and attr_of(T.strip(e.ev.recv), "env"):
                return ("final",)
            if e.kind == "call" and e.ev.attr in ("init_env", "struct_pre_finalize", "register_channel_metrics"):
                return ("register", e.ev.attr)
            return None

        tr = ctx.trace(p.lookup(cls, "__init__"), label3, cls, opaque=opaque_names("finalize", "init_env", "struct_pre_finalize", "register_channel_metrics", "_setup_async_commands"))
        bad = None
        for path in tr.ret:
            if path.count("final") != 1:
                bad = bad or ("the environment isn't finalized once", path)
            elif any(x[0] == "register" for x in path.labels[path.index("final"):]):
                bad = bad or ("something is registered after finalization", path)
            elif {x[1] for x in path.get("register")} < {"init_env", "struct_pre_finalize"}:
                bad = bad or ("the environment is finalized before it's initialized", path)
        ctx.ob(rule, "peer", bad is None and len(tr.ret) > 0, bad[0] if bad else "never returns", tr.func.where, bad[1].show() if bad else ())

    # Tasks.
    cls = ctx.anchor_cls(rule, PERIODIC)
    if cls is not None:
        def label4(e):
            if e.kind == "call" and e.ev.attr == "finalize" and e.ev.recv is not None and attr_of(T.strip(e.ev.recv), "env"):
                auto = next((pol for atom, pol in facts_of(e.st) if attr_of(atom, "auto_finalize")), None)
                return ("final", auto)
            if e.kind == "call" and e.ev.attr in ("_init_state", "register_task_metrics", "setup_level_channel") or e.kind == "call" and e.ev.attr == "channel" and e.ev.recv is not None and attr_of(T.strip(e.ev.recv), "env"):
                return ("register", e.ev.attr)
            return None

        tr = ctx.trace(p.lookup(cls, "__init__"), label4, cls, opaque=opaque_names("finalize", "_init_state", "register_task_metrics", "setup_level_channel", "channel", "set_period"))
        bad = None
        for path in tr.ret:
            auto = next((pol for atom, pol in facts_of(path.st) if attr_of(atom, "auto_finalize")), True)
            if path.count("final") != (1 if auto else 0):
                bad = bad or ("the environment isn't finalized" if auto else "the environment is finalized before the task is initialized", path)
            elif auto and any(x[0] == "register" for x in path.labels[path.index("final"):]):
                bad = bad or ("something is registered after finalization", path)
        ctx.ob(rule, "task", bad is None and len(tr.ret) > 0, bad[0] if bad else "never returns", tr.func.where, bad[1].show() if bad else ())

        # Tasks of applications are initialized later, others finalize.
        ctx.ob(rule, "task/default", const_attr(p, cls, "auto_finalize") is True, "the environment isn't finalized", cls.module.rel)
        sub = ctx.anchor_cls(rule, ARBITER_TASK)
        if sub is not None:
            ctx.ob(rule, "task/application", const_attr(p, sub, "auto_finalize") is False, "the environment is finalized before the task is initialized", sub.module.rel)

    # Everything can be waited for.
    func = ctx.anchor_func(rule, f"{INFO}.all_finalized")
    if func is not None:
        text = [n for n in ast.walk(func.node) if isinstance(n, ast.Attribute)]
        attrs = {n.attr for n in text}

        def label5(e):
            if e.kind in ("call", "coro") and e.ev.attr == "wait_finalized":
                return ("wait", T.strip(e.ev.recv))
            if e.kind == "await":
                return ("await",)
            return None

        tr = ctx.trace(func, label5, p.cls(INFO), cap=2, opaque=opaque_names("wait_finalized"))
        ok = {"connections", "tasks"} <= attrs and all(x.has("await") for x in tr.ret) and any(x.has("wait") for x in tr.ret)
        ctx.ob(rule, "all_finalized", ok, "it isn't waited for all connections and tasks", func.where)


def const_attr(p, cls, name):
    for item in p.mro_classes(cls):
        for node in item.node.body:
            targets = node.targets if isinstance(node, ast.Assign) else [node.target] if isinstance(node, ast.AnnAssign) else []
            for target in targets:
                if isinstance(target, ast.Name) and target.id == name and isinstance(node.value, ast.Constant):
                    return node.value.value
    return None


def finalizing_loops(func) -> list:
    return [n for n in ast.walk(func.node) if isinstance(n, (ast.For, ast.ListComp, ast.GeneratorExp)) and any(isinstance(x, ast.Attribute) and x.attr == "finalize" for x in ast.walk(n))]


def other_loops(func) -> list:
    return [n for n in ast.walk(func.node) if isinstance(n, ast.For) and not any(isinstance(x, ast.Attribute) and x.attr == "finalize" for x in ast.walk(n))]


def files(ctx, rule) -> None:
    def label(e):
        if e.kind == "call" and e.ev.attr == "finalize":
            value = T.strip(e.ev.args[0] if e.ev.args else e.ev.kwargs.get("strict", ("const", "bool", True)))
            return ("final", T.strip(e.ev.recv), value)
        if e.kind == "call" and e.ev.attr in ("asdict", "encode", "values"):
            return ("read", e.ev.attr)
        if e.kind == "call" and e.ev.attr in ("load_name_to_key",):
            return ("read", e.ev.attr)
        return None

    def exported(path):
        finals = [x for x in path.get("final") if is_self(x[1])]
        if not finals:
            return "an environment that isn't final is exported"
        if any(x[2] != ("const", "bool", False) for x in finals):
            return "a final environment can't be exported"
        if path.has("read") and path.index("read") < path.index("final"):
            return "it's read before it's final"
        return None

    for name in ("export_json", "export"):
        each_return(ctx, rule, name, f"{FILE_ENV}.{name}", FILE_ENV, exported, label=label, opaque=("finalize", "asdict", "encode", "values"))

    def loaded(path):
        requested = next((pol for atom, pol in facts_of(path.st) if is_param(atom, "finalize")), None)
        finals = [x for x in path.get("final") if x[1] == T.strip(path.val)]
        if requested is None:
            return "the request isn't considered"
        if requested != bool(finals):
            return "a loaded environment isn't final" if requested else "a loaded environment is final unexpectedly"
        return None

    for name in ("load", "load_json"):
        each_return(ctx, rule, name, f"{FILE_ENV}.{name}", FILE_ENV, loaded, label=label, opaque=("finalize", "create", "decode", "load_name_to_key", "__init__", "_fields_from_dict", "fields_from_dict", "fields_from_file"))

    def directory(path):
        val = T.strip(path.val)
        return None if called(val, "load") and is_param(arg(val, None, "finalize") or arg(val, 5, "finalize"), "finalize") else "the request isn't passed on"

    each_return(ctx, rule, "load_directory", f"{FILE_ENV}.load_directory", FILE_ENV, directory, opaque=("load",))


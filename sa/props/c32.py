"""C32: what's configured is created, as configured."""

from __future__ import annotations

from sa import terms as T
from sa.props.c06 import arg, attr_of, each_return, is_self, opaque_names, own
from sa.props.c09 import each_lap
from sa.props.c11 import called, param
from sa.props.c23 import truth
from sa.props.common import facts_of, is_param

ARB = "runtimepy.net.arbiter.config.ConfigConnectionArbiter"
CODEC = "runtimepy.net.arbiter.config.codec.ConnectionArbiterConfig"
UTIL = "runtimepy.net.arbiter.config.util"
LEVEL = "proof"
EXPLANATION = (
    "Every path of the methods that load configurations and create what they ask for is enumerated: each item of each section leads to one registration with what the item says, "
    "each factory is found under its names and creates what's registered, and whatever isn't registered is an error."
)
OPAQUE = (
    "register_module_factory", "factory_client", "factory_server", "factory_task", "factory_struct", "factory_process", "get_apps", "fix_args", "fix_kwargs", "register_connection",
    "client", "server_task", "register_struct_factory", "register_peer_factory", "register_connection_factory", "register_task_factory", "register", "handle_config_builders",
    "process_config", "get_free_socket_name", "normalize_host", "list_adder", "create_connection", "app",
)

# What's called for each item of a section, and which of the item's data each parameter gets.
SECTIONS = {
    "factories": ("register_module_factory", {"module_path": {"name"}, "*": {"namespaces"}, "**": {"kwargs"}}),
    "clients": ("factory_client", {"factory": {"factory"}, "name": {"name"}, "*": {"args"}, "**": {"kwargs"}, "defer": {"defer"}}),
    "servers": ("factory_server", {"factory": {"factory"}, "*": {"args"}, "**": {"kwargs"}}),
    "tasks": ("factory_task", {"factory": {"factory"}, "name": {"name"}, "period_s": {"period_s"}, "average_depth": {"average_depth"}, "markdown": {"markdown"}, "config": {"config"}}),
    "structs": ("factory_struct", {"factory": {"factory"}, "name": {"name"}, "config": {"config"}}),
    "processes": ("factory_process", {"factory": {"factory"}, "name": {"name"}, "top_level": {"."}}),
}


def run(ctx) -> None:
    R1 = ctx.rule("R1", "Each item of a configuration is created once, with what it says, or it's an error.")
    R2 = ctx.rule("R2", "Factories are found under their names, never replace others, and what they create is registered under the name that's requested.")
    R3 = ctx.rule("R3", "Every configuration file that's named is found, loaded once and merged, or it's an error.")
    R4 = ctx.rule("R4", "A configuration provides all of its sections, with the ports that are assigned.")
    R5 = ctx.rule("R5", "Connections are created with the options that are configured, and servers report connections and that they're started.")
    sections(ctx, R1)
    factories(ctx, R2)
    loading(ctx, R3)
    codec(ctx, R4)
    connections(ctx, R5)


def root(term):
    """Results of methods that are waited for."""
    while term is not None and term[0] == "await":
        term = term[1]
    return term


def callee(term, name: str) -> bool:
    term = root(term)
    return term is not None and (called(term, name) or term[0] == "coro" and term[1].endswith(f".{name}"))


def held(st, name: str):
    return truth(st, lambda a: callee(a, name))


def of_item(section: str):
    def item(t):
        return t[0] == "iter" and attr_of(t[1], section) and is_param(t[1][1], "config")

    return item


def keys_of(term, item) -> set:
    """The keys of an item's data that a term depends on."""
    out = set()
    for t in T.walk(term):
        if t[0] == "sub" and item(t[1]) and t[2][0] == "const":
            out.add(t[2][2])
        elif called(t, "get") and t[3] is not None and item(t[3]) and t[4] and t[4][0][0] == "const":
            out.add(t[4][0][2])
    return out if out else {"."} if T.contains(term, item) else set()


def bind(ctx, func, args, kwargs) -> dict:
    """Arguments by the parameters they're for."""
    names = [a.arg for a in func.params() if a.arg not in ("self", "cls")]
    only = {a.arg for a in func.node.args.kwonlyargs}
    names = [x for x in names if x not in only and x not in (getattr(func.node.args.vararg, "arg", None), getattr(func.node.args.kwarg, "arg", None))]
    out: dict = {}
    for i, x in enumerate(args):
        if x[0] == "star":
            out["*"] = x[1]
        elif i < len(names):
            out[names[i]] = x
        else:
            out["*"] = x
    out.update(dict(kwargs))
    return out


def call_label(*names):
    def label(e):
        if e.kind in ("call", "coro") and (e.ev.attr in names or e.ev.func is not None and e.ev.func.name in names):
            return (e.kind, e.ev.attr or e.ev.func.name, tuple(T.strip(x) for x in e.ev.args), tuple((k or "**", T.strip(v)) for k, v in e.ev.kwargs.items()))
        if e.kind == "call" and e.ev.attr == "add" and e.ev.args:
            return ("added", T.strip(e.ev.args[0]))
        if e.kind == "call" and e.ev.attr == "setdefault" and len(e.ev.args) == 2:
            return ("default", T.strip(e.ev.recv), T.strip(e.ev.args[0]), T.strip(e.ev.args[1]))
        return None

    return label


def sections(ctx, rule) -> None:
    func = ctx.anchor_func(rule, f"{ARB}.process_config")
    if func is None:
        return
    for section, (name, want) in SECTIONS.items():
        target = ctx.p.lookup(ctx.p.cls(ARB), name)
        if target is None:
            ctx.ob(rule, f"{section}/{name}", False, f"{name} is gone", func.where)
            continue
        item = of_item(section)
        seen: list = []

        def lap(path, section=section, name=name, want=want, target=target, item=item, seen=seen):
            kind = "coro" if target.is_async else "call"
            calls = [x for x in path.labels if x[0] == kind and x[1] == name]
            if not calls:
                again = section == "factories" and any(pol and a[0] == "in" and keys_of(a[1], item) == {"name"} for a, pol in facts_of(path.st))
                return None if again else f"one of the {section} isn't created"
            if len(calls) > 1:
                return f"one of the {section} is created more than once"
            if held(path.st, name) is not True:
                return f"it isn't an error if one of the {section} can't be created"
            given = bind(ctx, target, calls[0][2], calls[0][3])
            for key, keys in want.items():
                if key not in given:
                    return f"{key} of {section} isn't considered"
                got = keys_of(given[key], item)
                if got - {"markdown"} != keys - {"markdown"} or not got:
                    return f"{key} of {section} is {T.path(given[key])}"
                if key in ("*", "**") and keys & {"args", "kwargs"}:
                    resolved = any(t[0] == "call" and t[2].endswith("_resolve_env_vars") and keys_of(t, item) for t in T.walk(given[key]))
                    env = [v for t in T.walk(given[key]) if t[0] == "call" and t[2].endswith("_resolve_env_vars") for k, v in t[5] if k == "env"]
                    if not resolved or not env or not all(own(v, "_ports") or attr_of(v, "ports") for v in env):
                        return f"names of ports aren't resolved in {key} of {section}"
            if section == "factories":
                new = any(pol is False and a[0] == "in" and keys_of(a[1], item) == {"name"} for a, pol in facts_of(path.st))
                if not new or not any(x[0] == "added" and keys_of(x[1], item) == {"name"} for x in path.labels):
                    return "a factory that's named twice is an error"
            for key in given:
                if key not in want and key not in ("markdown",) and keys_of(given[key], item):
                    return f"{key} isn't expected for {section}"
            if section == "clients":
                marked = "markdown" in given and keys_of(given["markdown"], item) == {"markdown"} or any(
                    x[0] == "default" and x[2][2] == "markdown" and keys_of(x[3], item) == {"markdown"} for x in path.labels if x[0] == "default" and x[2][0] == "const"
                )
                if not marked:
                    return "descriptions of clients aren't considered"
                for x, fix in (("*", "fix_args"), ("**", "fix_kwargs")):
                    if not T.contains(given[x], lambda t, fix=fix: called(t, fix)):
                        return f"{x} of clients isn't fixed"
            seen.append(1)
            return None

        each_lap(ctx, rule, section, f"{ARB}.process_config", ARB, lambda t, section=section: attr_of(t, section) and is_param(t[1], "config"), lap, call_label(name), opaque=OPAQUE)
        ctx.ob(rule, f"{section}/{name}", bool(seen), f"none of the {section} are ever created", func.where)

    # Applications and data.
    app = lambda t: called(t, "get_apps") and attr_of(t[4][0], "app")  # noqa: E731

    def label(e):
        if e.kind == "store" and e.ev.kind in ("attr", "sub") and e.ev.base is not None:
            facts = facts_of(e.st)
            some = any(pol and app(a) for a, pol in facts)
            given = any(pol is False and a[0] == "isnone" and attr_of(a[1], "config") and is_param(a[1][1], "config") or pol and attr_of(a, "config") and is_param(a[1], "config") for a, pol in facts)
            return ("store", T.strip(e.ev.base), T.strip(e.ev.name) if isinstance(e.ev.name, tuple) else e.ev.name, T.strip(e.ev.value), some, given)
        return None

    def apps(path):
        stores = {x[2]: x for x in path.get("store") if is_self(x[1])}
        if "_ports" not in stores or not attr_of(stores["_ports"][3], "ports"):
            return "ports aren't known"
        inits = stores["_inits"][3] if "_inits" in stores else None
        if not (called(inits, "get_apps") and attr_of(inits[4][0], "inits")):
            return "initialization methods aren't known"
        if "_apps" in stores:
            val, some = stores["_apps"][3:5]
            if not app(val):
                return "applications aren't known"
            if not some:
                return "applications are replaced by none"
            if not is_param(arg(val, 1, "wait_for_stop"), "wait_for_stop"):
                return "applications don't wait to be stopped"
        if "_config" in stores:
            data, _, given = stores["_config"][3:6]
            if not given or not (attr_of(data, "config") and is_param(data[1], "config")):
                return "configuration data is lost"
            roots = [x for x in path.get("store") if x[2] == ("const", "str", "root")]
            if len(roots) != 1 or not T.contains(roots[0][3], lambda t: own(t, "_config")):
                return "the original configuration isn't kept"
        return None

    tr = each_return(ctx, rule, "process_config", f"{ARB}.process_config", ARB, apps, label=label, opaque=OPAQUE, cap=1)
    if tr is not None:
        for name in ("_apps", "_config"):
            ctx.ob(rule, f"process_config/{name}", any(x[2] == name for path in tr.ret for x in path.get("store") if is_self(x[1])), f"{name} is never known", tr.func.where)


def factories(ctx, rule) -> None:
    # Factories by their names.
    for name, table, names in (
        ("register_connection_factory", "_conn_factories", "_conn_names"),
        ("register_task_factory", "_task_factories", "_task_names"),
        ("register_struct_factory", "_struct_factories", "_struct_names"),
        ("register_peer_factory", "_peer_factories", "_peer_names"),
    ):

        def label(e, table=table, names=names):
            if e.kind == "store" and e.ev.kind == "sub" and (own(T.strip(e.ev.base), table) or own(T.strip(e.ev.base), names)):
                free = any(pol is False and a[0] == "in" and a[1] == T.strip(e.ev.name) and own(a[2], table) for a, pol in facts_of(e.st))
                return ("store", T.strip(e.ev.base)[2], T.strip(e.ev.name), T.strip(e.ev.value), free)
            return None

        def registered(path, table=table, names=names):
            stores = [x for x in path.get("store") if x[1] == table]
            known = [x for x in path.get("store") if x[1] == names]
            if not stores:
                if known:
                    return "a factory has a namespace without being registered"
                taken = any(pol and a[0] == "in" and own(a[2], table) for a, pol in facts_of(path.st))
                return None if taken and answers(path, False) else "a factory isn't registered"
            if len({x[2] for x in stores}) != 2 or not all(T.contains(x[2], param("factory")) for x in stores):
                return "a factory isn't registered under both of its names"
            if not any(T.contains(x[2], lambda t: t[0] == "call" and "snake" in t[2]) for x in stores) or all(T.contains(x[2], lambda t: t[0] == "call" and "snake" in t[2]) for x in stores):
                return "a factory isn't registered under both of its names"
            if not all(is_param(x[3], "factory") for x in stores):
                return "another factory is registered"
            if not all(x[4] for x in stores):
                return "a factory replaces another one"
            if len(known) != 1 or not is_param(known[0][2], "factory") or not T.contains(known[0][3], param("namespaces")):
                return "a factory's namespaces aren't kept"
            return None if answers(path, True) else "a factory is registered but reported not to be"

        each_return(ctx, rule, name, f"{ARB}.{name}", ARB, registered, label=label, opaque=OPAQUE)

    creation(ctx, rule)
    modules(ctx, rule)


def answers(path, want: bool) -> bool:
    val = T.strip(path.val)
    return val[0] == "const" and val[2] is want


def found(st, table):
    return truth(st, lambda a: a[0] == "in" and is_param(a[1], "factory") and own(a[2], table))


def taken(st, table):
    return truth(st, lambda a: a[0] == "in" and is_param(a[1], "name") and own(a[2], table))


def from_factory(term, table) -> bool:
    return T.contains(term, lambda t: (t[0] == "sub" and own(t[1], table) and is_param(t[2], "factory")))


def creation(ctx, rule) -> None:
    def label(e):
        got = call_label("client", "server_task", "register_connection", "register", "create_task", "append")(e)
        if got:
            recv = T.strip(e.ev.recv) if e.ev.recv is not None else None
            return got + (recv,)
        if e.kind == "call" and e.ev.name == "asyncio.create_task":
            return ("call", "create_task", tuple(T.strip(x) for x in e.ev.args), (), None)
        if e.kind == "store" and e.ev.kind == "sub":
            return ("store", T.strip(e.ev.base), T.strip(e.ev.name), T.strip(e.ev.value))
        return None

    def calls(path, kind, name):
        some = [x for x in path.labels if x[0] == kind and x[1] == name]
        # The type of a factory may not be known.
        return some or kind == "coro" and [x for x in path.labels if x[0] == "call" and x[1] == name] or []

    def client(path):
        known = found(path.st, "_conn_factories")
        made = calls(path, "coro", "client")
        if known is False:
            return None if not made and answers(path, False) else "a client is created without a factory"
        if len(made) != 1 or not from_factory(made[0][4], "_conn_factories"):
            return "the factory isn't asked for one client"
        given = made[0][2]
        if not given or not is_param(given[0], "name") or not any(x[0] == "star" and is_param(x[1], "args") for x in given) or not any(k == "**" and is_param(v, "kwargs") for k, v in made[0][3]):
            return "options of a client aren't passed on"
        kept = calls(path, "call", "register_connection")
        if len(kept) != 1:
            return "a client isn't registered once"
        first = kept[0][2][0]
        defer = truth(path.st, lambda a: is_param(a, "defer"))
        if not callee(first, "client"):
            return "something else is registered"
        if defer is None or (first[0] == "await") == defer:
            return "a client isn't deferred as requested"
        names = kept[0][2][1:]
        if len(names) != 2 or not is_param(names[1], "name") or names[0][0] != "star" or not T.contains(names[0], lambda t: own(t, "_conn_names")):
            return "a client isn't registered under its name"
        val = T.strip(path.val)
        return None if called(val, "register_connection") else "it isn't reported if a client is registered"

    each_return(ctx, rule, "factory_client", f"{ARB}.factory_client", ARB, client, label=label, opaque=OPAQUE)

    def server(path):
        known = found(path.st, "_conn_factories")
        made = calls(path, "coro", "server_task")
        if known is False:
            return None if not made and answers(path, False) else "a server is created without a factory"
        if len(made) != 1 or not from_factory(made[0][4], "_conn_factories"):
            return "the factory isn't asked for one server"
        given = made[0][2]
        for i, attr in enumerate(("stop_sig", "manager", "_servers_started")):
            if len(given) <= i or not own(given[i], attr):
                return f"a server doesn't get {attr}"
        if not any(x[0] == "star" and is_param(x[1], "args") for x in given) or not any(k == "**" and is_param(v, "kwargs") for k, v in made[0][3]):
            return "options of a server aren't passed on"
        tasks = [x for x in calls(path, "call", "create_task") if callee(x[2][0], "server_task")]
        kept = [x for x in calls(path, "call", "append") if x[4] is not None and own(x[4], "_servers") and T.contains(x[2][0], lambda t: called(t, "create_task"))]
        if len(tasks) != 1 or len(kept) != 1:
            return "a server isn't run as one of the servers"
        return None if answers(path, True) else "it isn't reported that a server is created"

    each_return(ctx, rule, "factory_server", f"{ARB}.factory_server", ARB, server, label=label, opaque=OPAQUE)

    def task(path):
        known = found(path.st, "_task_factories")
        made = [x for x in calls(path, "call", "register") if own(x[4], "task_manager")]
        if known is False:
            return None if not made and answers(path, False) else "a task is created without a factory"
        if len(made) != 1:
            return "a task isn't registered once"
        new = made[0][2][0]
        if new[0] == "new":
            args, kwargs = new[3:5]
        elif new[0] == "call":
            args, kwargs = new[4:6]
        else:
            return f"{T.path(new)} is registered"
        named = args and is_param(args[0], "name") or any(k == "name" and is_param(v, "name") for k, v in kwargs)
        if not named or not any(k in ("**", None) and is_param(v, "kwargs") for k, v in kwargs):
            return "options of a task aren't passed on"
        period = dict(made[0][3]).get("period_s") or (made[0][2][1] if len(made[0][2]) > 1 else None)
        if not is_param(period, "period_s"):
            return "the period of a task isn't passed on"
        return None if called(T.strip(path.val), "register") else "it isn't reported if a task is registered"

    each_return(ctx, rule, "factory_task", f"{ARB}.factory_task", ARB, task, label=label, opaque=OPAQUE)

    for name, table, items, data in (("factory_struct", "_struct_factories", "_structs", ("config",)), ("factory_process", "_peer_factories", "_peers", ("config", "program", "markdown"))):

        def item(path, table=table, items=items, data=data, name=name):
            stores = [x for x in path.get("store") if own(x[1], items)]
            known, there = found(path.st, table), taken(path.st, items)
            if not stores:
                return None if answers(path, False) and (known is False or there is True) else "nothing is registered"
            if known is not True:
                return "something is registered without a factory"
            if there is not False:
                return "another one of the same name is replaced"
            if len(stores) != 1 or not is_param(stores[0][2], "name"):
                return "it isn't registered once, under its name"
            val = stores[0][3]
            if name == "factory_struct":
                args = val[3] if val[0] == "new" else val[4] if val[0] == "call" else ()
                if len(args) < 2 or not is_param(args[0], "name") or not is_param(args[1], "config"):
                    return "a struct isn't created with its name and configuration"
            else:
                parts = val[1] if val[0] == "tuple" else ()
                if len(parts) != 5 or not from_factory(parts[0], table) or not is_param(parts[1], "name"):
                    return "a process doesn't have its factory and name"
                for part, key in zip(parts[2:], data):
                    if not T.contains(part, lambda t, key=key: t == ("const", "str", key)) or not T.contains(part, param("top_level")):
                        return f"a process doesn't have its {key}"
            return None if answers(path, True) else "it isn't reported that it's registered"

        each_return(ctx, rule, name, f"{ARB}.{name}", ARB, item, label=label, opaque=OPAQUE)

    # Tasks by their names.
    manager = "runtimepy.task.basic.manager.PeriodicTaskManager"

    def label2(e):
        if e.kind == "store" and e.ev.kind == "sub" and own(T.strip(e.ev.base), "_tasks"):
            return ("store", T.strip(e.ev.name), T.strip(e.ev.value))
        if e.kind == "call" and e.ev.attr == "set_period":
            given = e.ev.kwargs.get("period_s") or (e.ev.args[0] if e.ev.args else None)
            return ("period", T.strip(e.ev.recv), T.strip(given) if given is not None else None)
        return None

    def registered(path):
        known = next((pol for a, pol in facts_of(path.st) if a[0] == "in" and attr_of(a[1], "name") and own(a[2], "_tasks")), None)
        stores, periods = path.get("store"), path.get("period")
        val = T.strip(path.val)
        want = val[2] if val[0] == "const" else not known if known is not None else None
        if known is None:
            return "it isn't known if there's a task of this name"
        if known:
            return None if not stores and not periods and want is False else "a task replaces another one of the same name"
        if len(stores) != 1 or not attr_of(stores[0][1], "name") or not is_param(stores[0][1][1], "task") or not is_param(stores[0][2], "task"):
            return "a task isn't registered under its name"
        if len(periods) != 1 or not is_param(periods[0][1], "task") or not is_param(periods[0][2], "period_s"):
            return "a task's period isn't set"
        return None if want is True else "it isn't reported that a task is registered"

    each_return(ctx, rule, "tasks", f"{manager}.register", manager, registered, label=label2, opaque=("set_period",))


def modules(ctx, rule) -> None:
    """The kind of factory decides how it's registered."""
    kinds = {
        "register_struct_factory": ("issubclass", "RuntimeStruct"),
        "register_peer_factory": ("issubclass", "RuntimepyPeer"),
        "register_connection_factory": ("isinstance", "ConnectionFactory"),
        "register_task_factory": ("isinstance", "TaskFactory"),
    }

    def label(e):
        got = call_label(*kinds)(e)
        if got and got[0] == "call":
            kind, cls = kinds[got[1]]
            known = any(pol and (a[0] == kind or a[0] == "call" and a[2] == kind) and cls in str(a[2:]) and (a[1] == got[2][0] or a[0] == "call" and a[4][0] == got[2][0]) for a, pol in facts_of(e.st))
            return ("register", got[1], got[2], known)
        return None

    def registered(path):
        for _, name, args, known in path.get("register"):
            if not known:
                return f"{name} is used for something else"
            if not any(x[0] == "star" and is_param(x[1], "namespaces") for x in args):
                return "namespaces aren't passed on"
            if not T.contains(args[0], lambda t: t[0] == "call" and t[2].endswith("import_str_and_item") and is_param(t[4][0], "module_path")):
                if not (args[0][0] == "call" and args[0][2] in ("?call", "getattr")):
                    return "another factory is registered"
        val = T.strip(path.val)
        last = path.get("register")[-1] if path.get("register") else None
        if val[0] == "const":
            if val[2] and last is None:
                return "a factory is reported to be registered"
            if val[2] is False and last is not None and held(path.st, last[1]) is not False and not (val[2] is False and len(path.get("register")) and False):
                return "a factory is reported not to be registered"
            return None
        return None if last is not None and callee(val, last[1]) else "something else is reported"

    tr = each_return(ctx, rule, "register_module_factory", f"{ARB}.register_module_factory", ARB, registered, label=label, opaque=OPAQUE)
    if tr is not None:
        for name in kinds:
            ctx.ob(rule, f"register_module_factory/{name}", any(x[1] == name for path in tr.ret for x in path.get("register")), f"{name} is never used", tr.func.where)


def loading(ctx, rule) -> None:
    # What's found after several attempts is merged.
    located = lambda t: t[0] == "phi" or t[0] == "call" and t[2].endswith("find_file") and T.contains(t, param("paths"))  # noqa: E731

    def label(e):
        if e.kind == "call" and (e.ev.name or "").endswith("dict.merge"):
            return ("merge", tuple(T.strip(x) for x in e.ev.args))
        if e.kind == "call" and (e.ev.attr == "decode" or (e.ev.name or "").endswith(".decode")):
            return ("decode", tuple(T.strip(x) for x in e.ev.args), tuple((k, T.strip(v)) for k, v in e.ev.kwargs.items()))
        if e.kind == "call" and (e.ev.name or "").endswith("find_file"):
            missing = any(pol and a[0] == "isnone" and located(a[1]) or pol is False and located(a) for a, pol in facts_of(e.st))
            return ("find", T.strip(e.ev.args[0]), tuple(sorted(k for k in e.ev.kwargs if k)), missing)
        if e.kind == "call" and e.ev.attr == "add" and e.ev.args and T.contains(T.strip(e.ev.args[0]), located):
            return ("loaded", T.strip(e.ev.args[0]))
        return None

    def lap(path):
        merges, decodes = path.get("merge"), path.get("decode")
        finds = path.get("find")
        if not finds or not any(x[0] == "iter" and is_param(x[1], "paths") for x in [finds[0][1]]):
            return "a path itself isn't considered"
        for x in finds[1:]:
            if "package" not in x[2] or not T.contains(x[1], param("paths")):
                return "something else is looked for"
            if not x[3]:
                return "a file in a package replaces the one that's named"
        if not merges:
            again = any(pol and a[0] == "in" and T.contains(a[1], located) for a, pol in facts_of(path.st))
            return None if again else "a file isn't loaded"
        if len(merges) != 1 or len(decodes) != 1:
            return "a file is loaded more than once"
        if not T.contains(decodes[0][1][0], located):
            return "another file is loaded"
        opts = dict(decodes[0][2])
        if opts.get("require_success", (0, 0, None))[2] is not True:
            return "errors of loading a file are ignored"
        if opts.get("includes_key", (0, 0, None))[2] != "includes":
            return "included files aren't loaded"
        if not T.contains(merges[0][1][1], lambda t: called(t, "decode")):
            return "something else is merged"
        none = any((pol is False and a[0] == "isnone" and located(a[1])) or pol and located(a) for a, pol in facts_of(path.st))
        if not none:
            return "it isn't an error if a file isn't found"
        return None if len(path.get("loaded")) == 1 else "a file can be loaded more than once"

    each_lap(ctx, rule, "load_configs", f"{ARB}.load_configs", ARB, lambda t: is_param(t, "paths"), lap, label, opaque=OPAQUE, outer=True)
    func = ctx.p.func(f"{ARB}.load_configs")
    if func is not None:
        tr = ctx.trace(func, lambda e: label(e) if e.kind == "call" and (e.ev.name or "").endswith("find_file") else None, ctx.p.cls(ARB), opaque=opaque_names(*OPAQUE), cap=1)
        ctx.ob(rule, "load_configs/packages", any("package" in x[2] for path in tr.ret for x in path.get("find")), "packages aren't searched", func.where)

    def label2(e):
        if e.kind in ("call", "coro") and (e.ev.func is not None and e.ev.func.name in ("process_config", "handle_config_builders") or e.ev.name == CODEC):
            return (e.kind, (e.ev.func.name if e.ev.func is not None else "codec"), tuple(T.strip(x) for x in e.ev.args), tuple((k, T.strip(v)) for k, v in e.ev.kwargs.items()))
        if e.kind == "store" and e.ev.kind == "sub" and own(T.strip(e.ev.base), "_config"):
            return ("root", T.strip(e.ev.name), T.strip(e.ev.value))
        return None

    def processed(path):
        order = [x[1] for x in path.labels if x[0] == "call" and x[1] in ("handle_config_builders",) or x[0] == "coro"]
        if order != ["handle_config_builders", "process_config"]:
            return "a configuration isn't built, then processed, once"
        roots = path.get("root")
        if len(roots) != 1 or roots[0][1] != ("const", "str", "root"):
            return "the original configuration isn't kept"
        data = roots[0][2]
        built = next(x for x in path.labels if x[1] == "handle_config_builders")
        done = next(x for x in path.labels if x[0] == "coro")
        if built[2][0] != data:
            return "another configuration is built"
        if not T.contains(done[2][0], lambda t: t == data):
            return "another configuration is processed"
        wait = done[2][1] if len(done[2]) > 1 else dict(done[3]).get("wait_for_stop")
        return None if is_param(wait, "wait_for_stop") else "applications don't wait to be stopped"

    each_return(ctx, rule, "process", f"{ARB}.load_configs", ARB, processed, label=label2, opaque=OPAQUE, cap=1)

    # Methods that build configurations.
    def label3(e):
        if e.kind == "call" and e.ev.args and is_param(T.strip(e.ev.args[0]), "data"):
            return ("build", e.ev.name)
        return None

    builders = "runtimepy.net.arbiter.config.handle_config_builders"
    each_lap(
        ctx, rule, "builders", builders, None, lambda t: T.contains(t, lambda x: x == ("const", "str", "config_builders")),
        lambda path: None if len(path.get("build")) == 1 else "a method isn't run once", label3, opaque=(), need=(),
    )

    # The search path.
    def label4(e):
        if e.kind == "call" and e.ev.attr in ("append", "insert", "extend") and e.ev.recv is not None and is_param(T.strip(e.ev.recv), "dest"):
            return (e.ev.attr, tuple(T.strip(x) for x in e.ev.args))
        return None

    def placed(path):
        front = truth(path.st, lambda a: is_param(a, "front"))
        if len(path.labels) != 1 or front is None:
            return "the item isn't added once"
        kind, args = path.labels[0][:2]
        if not T.contains(args[-1], param("data")):
            return "something else is added"
        first = kind == "insert" and args[0] == ("const", "int", 0)
        return None if first == front and (first or kind == "append") else "the item isn't added at the end that's requested"

    each_return(ctx, rule, "list_adder", f"{UTIL}.list_adder", None, placed, label=label4)

    def package(path):
        adds = path.get("call")
        known = any(pol and a[0] == "in" and T.contains(a[2], lambda t: t[0] == "attr" and t[2] == "search_packages") for a, pol in facts_of(path.st))
        if known:
            return None if not adds else "a package is added twice"
        if len(adds) != 1 or not T.contains(adds[0][2][0], lambda t: t[0] == "attr" and t[2] == "search_packages") or not T.contains(adds[0][2][1], param("name")):
            return "a package isn't added"
        front = adds[0][2][2] if len(adds[0][2]) > 2 else dict(adds[0][3]).get("front")
        return None if is_param(front, "front") else "a package isn't added at the end that's requested"

    each_return(ctx, rule, "add_search_package", f"{ARB}.add_search_package", ARB, package, label=call_label("list_adder"), opaque=OPAQUE)


def codec(ctx, rule) -> None:
    keys = {"app": "app", "inits": "init", "config": "config", "factories": "factories", "clients": "clients", "servers": "servers", "tasks": "tasks", "structs": "structs", "processes": "processes", "directory": "directory"}

    def label(e):
        if e.kind == "store" and e.ev.kind == "attr" and e.ev.base is not None and is_self(T.strip(e.ev.base)):
            return ("attr", e.ev.name, T.strip(e.ev.value))
        if e.kind == "store" and e.ev.kind == "sub":
            return ("sub", T.strip(e.ev.base), T.strip(e.ev.name), T.strip(e.ev.value))
        return None

    def complete(path):
        have = {x[1]: x[2] for x in path.get("attr")}
        if not is_param(have.get("data"), "data"):
            return "data isn't kept"
        for attr, key in keys.items():
            val = have.get(attr)
            if val is None:
                return f"{attr} isn't provided"
            got = {t[4][0][2] for t in T.walk(val) if called(t, "get") and is_param(t[3], "data") and t[4][0][0] == "const"}
            got |= {t[2][2] for t in T.walk(val) if t[0] == "sub" and is_param(t[1], "data") and t[2][0] == "const"}
            if got != {key}:
                return f"{attr} isn't what's configured as {key}"
        return None

    each_return(ctx, rule, "sections", f"{CODEC}.init", CODEC, complete, label=label, opaque=OPAQUE, cap=1)

    ports = lambda t: called(t, "get") and is_param(t[3], "data") and t[4][0] == ("const", "str", "ports")  # noqa: E731
    item = lambda t: t[0] == "iter" and ports(t[1])  # noqa: E731
    key = lambda t, name: t[0] == "sub" and item(t[1]) and t[2] == ("const", "str", name)  # noqa: E731
    port = lambda t: attr_of(t, "port") and called(t[1], "get_free_socket_name")  # noqa: E731

    def lap(path):
        subs = path.get("sub")
        named = [x for x in subs if key(x[2], "name")]
        updated = [x for x in subs if item(x[1]) and x[2] == ("const", "str", "port")]
        if len(named) != 1 or not port(named[0][3]):
            return "an assigned port isn't known by its name"
        if len(updated) != 1 or not port(updated[0][3]):
            return "an assigned port isn't configured"
        asked = named[0][3][1]
        local, kind = arg(asked, 0, "local"), arg(asked, 1, "kind")
        host = arg(local, 0, "host") if local is not None and called(local, "normalize_host") else None
        if host is None or not key(host, "host"):
            return "another host is used"
        number = local[4][1]
        if not (called(number, "get") and T.contains(number, lambda t: t == ("const", "str", "port_overrides")) and key(number[4][0], "name") and key(number[4][1], "port")):
            return "overrides of ports aren't considered"
        tcp = next((pol for a, pol in facts_of(path.st) if a[0] == "cmp" and a[1] == "==" and ("const", "str", "tcp") in a[2:] and any(key(x, "type") for x in a[2:])), None)
        udp = next((pol for a, pol in facts_of(path.st) if a[0] == "cmp" and a[1] == "==" and ("const", "str", "udp") in a[2:] and any(key(x, "type") for x in a[2:])), None)
        stream = tcp if tcp is not None else None if udp is None else not udp
        if stream is None or kind is None or not (kind[0] == "ext" and kind[1].endswith("SOCK_STREAM" if stream else "SOCK_DGRAM")):
            return "a port for another protocol is assigned"
        return None

    each_lap(ctx, rule, "ports", f"{CODEC}.init", CODEC, ports, lap, label, opaque=OPAQUE)

    # Known fixes.
    def fixed(path):
        subs = path.get("sub")
        if any(not is_param(x[1], "data") or not T.contains(x[3], lambda t: t[0] == "call" and t[2] == "tuple" or t[0] == "tuple") for x in subs):
            return "something else is changed"
        if any(not T.contains(x[3], lambda t, x=x: t[0] == "sub" and is_param(t[1], "data") and t[2] == x[2]) for x in subs):
            return "an option gets another option's value"
        for name in ("local_addr", "remote_addr") if all(x[2][0] == "const" for x in subs) else ():
            key = ("const", "str", name)
            known = truth(path.st, lambda a, key=key: a[0] == "in" and a[1] == key and is_param(a[2], "data"))
            if known is not False and not any(x[2] == key for x in subs):
                return f"{name} isn't fixed"
        return None if is_param(T.strip(path.val), "data") else "something else is returned"

    tr = each_return(ctx, rule, "fix_kwargs", f"{UTIL}.fix_kwargs", None, fixed, label=label)
    if tr is not None:
        ctx.ob(rule, "fix_kwargs/some", any(x.has("sub") for x in tr.ret), "addresses aren't fixed", tr.func.where)

    def resolved(path):
        subs = path.get("sub")
        for x in subs:
            if not is_param(x[1], "data"):
                return "something else is changed"
            call = next((t for t in T.walk(x[3]) if t[0] == "call" and t[2].endswith("list_resolve_env_vars")), None)
            if call is None or not T.contains(call[4][0], lambda t: called(t, "split")) or not is_param(arg(call, 1, "env"), "ports"):
                return "names of ports aren't resolved"
        return None if is_param(T.strip(path.val), "data") else "something else is returned"

    tr = each_return(ctx, rule, "fix_args", f"{UTIL}.fix_args", None, resolved, label=label)
    if tr is not None:
        ctx.ob(rule, "fix_args/some", any(x.has("sub") for x in tr.ret), "names of ports are never resolved", tr.func.where)

    # Methods by their paths.
    def label2(e):
        if e.kind == "call" and e.ev.attr == "append" and e.ev.args:
            return ("append", T.strip(e.ev.recv), T.strip(e.ev.args[0]))
        return None

    def loaded(path):
        waits = truth(path.st, lambda a: is_param(a, "wait_for_stop"))
        appended = any(x[2][0] == "const" and str(x[2][2]).endswith(".wait_for_stop") for x in path.get("append"))
        if waits is not None and waits != appended and not T.contains(T.strip(path.val), lambda t: t[0] == "const" and str(t[2]).endswith(".wait_for_stop")):
            return "applications don't wait to be stopped, as requested"
        return None

    tr = each_return(ctx, rule, "get_apps", "runtimepy.net.arbiter.imports.util.get_apps", None, loaded, label=label2, cap=2)
    if tr is not None:
        ctx.ob(rule, "get_apps/some", any(T.contains(x[2], lambda t: t[0] == "call" and t[2] == "getattr") for path in tr.ret for x in path.get("append")), "methods aren't loaded", tr.func.where)


def connections(ctx, rule) -> None:
    for kind, cls, server in (
        ("tcp", "runtimepy.net.arbiter.tcp.TcpConnectionFactory", True),
        ("udp", "runtimepy.net.arbiter.udp.UdpConnectionFactory", False),
        ("websocket", "runtimepy.net.arbiter.websocket.WebsocketConnectionFactory", True),
    ):

        def label(e):
            got = call_label("create_connection", "app")(e)
            return got if got and got[0] in ("call", "coro") else None

        def client(path):
            calls = [x for x in path.labels if x[1] == "create_connection"]
            last = calls[-1] if calls else None
            if last is None or not callee(T.strip(path.val), "create_connection") and not T.contains(T.strip(path.val), lambda t: callee(t, "create_connection")):
                return "a connection isn't created"
            if not any(k == "**" and is_param(v, "kwargs") for k, v in last[3]):
                return "options aren't passed on"
            passed = any(x[0] == "star" and is_param(x[1], "args") for x in last[2])
            refused = any(T.contains(a, lambda t: t[0] in ("param", "starparam") and t[-1] in ("args", "*")) for a, _ in facts_of(path.st))
            return None if passed or refused else "arguments are ignored"

        each_return(ctx, rule, f"{kind}.client", f"{cls}.client", cls, client, label=label, opaque=OPAQUE)
        if not server:
            continue

        def serve(path):
            calls = [x for x in path.labels if x[1] == "app"]
            last = calls[-1] if calls else None
            if last is None:
                return "a server isn't created"
            given = dict(last[3])
            if not last[2] or not is_param(last[2][0], "stop_sig"):
                return "a server can't be stopped"
            if not is_param(given.get("manager"), "manager"):
                return "a server's connections aren't managed"
            if not is_param(given.get("**"), "kwargs"):
                return "options aren't passed on"
            return None if given.get("serving_callback") is not None else "it isn't known when a server is started"

        each_return(ctx, rule, f"{kind}.server_task", f"{cls}.server_task", cls, serve, label=label, opaque=OPAQUE)
        func = ctx.p.func(f"{cls}.server_task")
        if func is not None:
            body = __import__("ast").unparse(func.node)
            ctx.ob(rule, f"{kind}.server_task/started", "started_sem.release" in body, "it isn't reported that a server is started", func.where)

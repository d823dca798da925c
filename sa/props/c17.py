"""C17: processes that are started are shut down, and what they say arrives."""

from __future__ import annotations

from sa import terms as T
from sa.props.c06 import arg, attr_of, each_return, is_self, opaque_names, own
from sa.props.c09 import each_lap
from sa.props.c11 import called
from sa.props.c23 import truth
from sa.props.common import is_param

PKG = "runtimepy.subprocess"
PROTO = f"{PKG}.protocol.RuntimepySubprocessProtocol"
BASE = f"{PKG}.interface.RuntimepyPeerInterface"
PEER = f"{PKG}.peer.RuntimepyPeer"
PROGRAM = f"{PKG}.program.PeerProgram"
LEVEL = "proof"
EXPLANATION = (
    "Every path of the contexts, protocols and tasks of subprocesses (exceptions and cancellation at every wait included) is enumerated: "
    "processes are waited for and tasks are ended on each of them, pipes are paired with their queues and handlers, and a program starts when environments were exchanged."
)
OPAQUE = (
    "close_protocol", "shutdown_protocol", "_poll", "loopback", "wait_json", "share_environment", "process_command_queue", "service_queues", "handle_stderr", "handle_stdout", "process_json",
    "messages", "io_task", "heartbeat_task", "main", "cleanup", "pre_environment_exchange", "run_standard", "running", "_context", "spawn_exec", "spawn_shell", "export_json", "_set_peer_env",
    "load_json", "parse_event_stream", "ingest", "increment", "poll", "poll_psutil", "update", "load_configs", "app", "streaming_events", "governed_log", "register_env", "registered", "_flush",
)


def run(ctx) -> None:
    R1 = ctx.rule("R1", "A process that's started is given its queues and is shut down whenever its context ends.")
    R2 = ctx.rule("R2", "Shutting a process down ends its input and waits until it exited.")
    R3 = ctx.rule("R3", "Output arrives in the queue of its pipe, and the exit is signalled after all of it is flushed.")
    R4 = ctx.rule("R4", "A peer forwards what its process writes to the right handler, and its tasks end with its context.")
    R5 = ctx.rule("R5", "A program reads messages until its input ends, runs once environments are exchanged, and always cleans up.")
    R6 = ctx.rule("R6", "Environments and configurations are exchanged once, in both directions.")
    spawning(ctx, R1)
    shutdown(ctx, R2)
    protocol(ctx, R3)
    peer(ctx, R4)
    program(ctx, R5)
    exchange(ctx, R6)


def root(term):
    while term is not None and term[0] == "await":
        term = term[1]
    return term


def callee(term, name: str) -> bool:
    term = root(term)
    return term is not None and (called(term, name) or term[0] in ("coro", "gen") and term[1].endswith(f".{name}"))


def mentions(term, pred) -> bool:
    return term is not None and T.contains(term, pred)


def label(e):
    if e.kind in ("call", "coro"):
        name = e.ev.attr or (e.ev.func.name if e.ev.func is not None else e.ev.name.split(".")[-1])
        return (e.kind, name, tuple(T.strip(x) for x in e.ev.args), tuple((k or "**", T.strip(v)) for k, v in e.ev.kwargs.items()), T.strip(e.ev.recv) if e.ev.recv is not None else None)
    if e.kind == "await":
        return ("await", T.strip(e.term))
    if e.kind == "yield" and e.frame.uid == "":
        return ("yield", T.strip(e.term) if e.term is not None else None)
    if e.kind == "store" and e.ev.kind == "attr":
        return ("store", e.ev.name, T.strip(e.ev.base), T.strip(e.ev.value))
    if e.kind == "store" and e.ev.kind == "sub":
        return ("item", T.strip(e.ev.base), T.strip(e.ev.name) if isinstance(e.ev.name, tuple) else e.ev.name, T.strip(e.ev.value))
    if e.kind == "enter":
        return ("enter", T.strip(e.term))
    if e.kind == "handler":
        return ("handler",)
    return None


def calls(path, *names):
    """Calls, and coroutines that are created."""
    return [x for x in path.labels if x[0] == "call" and x[1] in names]


def coros(path, name):
    some = [x for x in path.labels if x[0] == "coro" and x[1] == name]
    return some or [x for x in path.labels if x[0] == "call" and x[1] == name]


def awaits(path, name):
    return [x for x in path.labels if x[0] == "await" and callee(x[1], name)]


def where(path, item) -> int:
    return next(i for i, x in enumerate(path.labels) if x is item)


def given(item, index, name):
    if index is not None and index < len(item[2]):
        return item[2][index]
    return dict(item[3]).get(name)


def starred(item, name) -> bool:
    return any(x[0] == "star" and mentions(x[1], lambda t: is_param(t, name)) for x in item[2])


def kept(item, name) -> bool:
    return any(k == "**" and is_param(v, name) for k, v in item[3])


def every(ctx, rule, key, qual, cls, pred, only=None, **opts):
    """A predicate holds on every path, however it ends."""
    func = ctx.anchor_func(rule, qual)
    if func is None:
        return None
    tr = ctx.trace(func, opts.pop("label", label), ctx.p.cls(cls) if cls else None, opaque=opaque_names(*(x for x in OPAQUE if x != func.name)), **opts)
    bad = None
    count = 0
    for path in tr.all:
        if only is not None and not only(path):
            continue
        count += 1
        msg = pred(path)
        if msg and bad is None:
            bad = (msg, path)
    ctx.ob(rule, key, bad is None and count > 0, bad[0] if bad else "no path does", tr.func.where, bad[1].show() if bad else ())
    return tr


def spawning(ctx, rule) -> None:
    for name in ("exec", "shell"):
        create = f"subprocess_{name}"

        def spawn(path, create=create, name=name):
            made = calls(path, create)
            if len(made) != 1 or not awaits(path, create):
                return "a process isn't started once"
            if name == "exec":
                if len(made[0][2]) != 3 or not mentions(made[0][2][1], lambda t: is_param(t, "args")) or not starred(made[0], "args"):
                    return "the program or its arguments aren't passed on"
                both = [x[1] if x[0] == "star" else x for x in made[0][2][1:]]
                unpacked = [x[2] for x in both if x[0] == "unpack"]
                if len(unpacked) == 2 and unpacked != [0, 1]:
                    return "the program and its arguments are mixed up"
                rec = next((t for x in both for t in T.walk(x) if called(t, "reconcile_platform")), None)
                if rec is not None and (rec[4][0][0] != "sub" or rec[4][0][2] != ("const", "int", 0) or rec[4][1][0] != "sub" or rec[4][1][2] != ("slice", (("const", "int", 1), None, None)) and rec[4][1][2][0] != "slice"):
                    return "the program isn't the first argument"
            elif len(made[0][2]) != 2 or not is_param(made[0][2][1], "cmd"):
                return "the command isn't passed on"
            if not kept(made[0], "kwargs"):
                return "options of a process are lost"
            out = [x for x in path.labels if x[0] == "yield"]
            if len(out) != 1 or out[0][1] is None or out[0][1][0] not in ("unpack", "sub") or not mentions(out[0][1], lambda t: called(t, create)) or out[0][1][2] not in (1, ("const", "int", 1)):
                return "something else than the protocol is provided"
            i = where(path, out[0])
            closed = [x for x in path.labels[i:] if x[0] in ("call", "coro") and x[1] == "close_protocol"]
            if not closed:
                return "the process isn't shut down when its context ends"
            item = closed[0]
            if given(item, 0, "protocol") != out[0][1]:
                return "something else is shut down"
            if not is_param(given(item, 2, "stdout"), "stdout") or not is_param(given(item, 3, "stderr"), "stderr"):
                return "output that remains isn't reported"
            if path.kind == "ret" and not awaits(path, "close_protocol"):
                return "the shutdown isn't waited for"
            return None

        tr = every(ctx, rule, f"spawn_{name}", f"{PKG}.spawn_{name}", None, spawn, only=lambda p: p.has("yield"))
        if tr is None:
            continue
        # Failures of the body.
        ctx.ob(rule, f"spawn_{name}/ends", any(p.has("yield") for p in tr.exc) and any(p.has("yield") for p in tr.ret), "the context can't fail", tr.func.where)
        # What the protocol is created with.
        good = False
        for item in {x for p in tr.all for x in calls(p, create)}:
            fac = item[2][0] if item[2] else None
            if fac is None:
                continue
            if called(fac, "partial"):
                args = fac[4][1:]
                good = bool(fac[4]) and len(args) == 2 and is_param(args[0], "stdout") and is_param(args[1], "stderr")
                break
            func = next((f for t, (f, *_) in tr.it.closures.items() if T.strip(t) == fac or t == fac), None)
            if func is None:
                continue
            sub = ctx.trace(func, label)
            good = bool(sub.ret)
            for q in sub.ret:
                val = T.strip(q.val)
                made = [x for x in q.labels if x[0] == "call" and x[1] in ("RuntimepySubprocessProtocol", "__init__")]
                good = good and val[0] == "new" and any(named(given(x, 0, "stdout"), "stdout") and named(given(x, 1, "stderr"), "stderr") for x in made)
        ctx.ob(rule, f"spawn_{name}/queues", good, "a process isn't given its queues", tr.func.where)


def named(term, name) -> bool:
    """A variable of an enclosing function."""
    return term is not None and (is_param(term, name) or term[0] in ("free", "name", "local", "ext") and name in str(term))


def shutdown(ctx, rule) -> None:
    gone = lambda st: truth(st, lambda a: called(a, "is_set") and attr_of(a[3], "exited"))

    def down(path):
        if gone(path.st) is not True:
            return "it isn't waited until the process exited"
        can = truth(path.st, lambda a: called(a, "can_write_eof"))
        eof = [x for x in calls(path, "write_eof") if attr_of(x[4], "stdin")]
        if can is None:
            return "it isn't checked if the input can be ended"
        return None if len(eof) == (1 if can else 0) else "the input of a process isn't ended"

    each_return(ctx, rule, "shutdown", f"{PKG}.shutdown_protocol", None, down, label=label, opaque=OPAQUE, cap=2)

    bounded = []

    def lap(path):
        waits = [x for x in calls(path, "wait") if attr_of(x[4], "exited")]
        if len(waits) != 1:
            return "the exit of a process isn't waited for"
        for x in path.labels:
            if x[0] == "call" and x[1] in ("wait_for", "timeout") and is_param(given(x, 1 if x[1] == "wait_for" else 0, "timeout"), "poll_rate"):
                bounded.append(path.has("handler"))
        return None if any(attr_of(x[4], "transport") for x in calls(path, "close")) else "a process that doesn't exit isn't closed"

    each_lap(ctx, rule, "shutdown/each", f"{PKG}.shutdown_protocol", None, lambda t: t is None, lap, label)
    ctx.ob(rule, "shutdown/bounded", {True, False} <= set(bounded), "it's waited for a process without a bound, or just once", "")

    def close(path):
        made = coros(path, "shutdown_protocol")
        asked = gone(path.st)
        if made:
            if not is_param(given(made[0], 0, "protocol"), "protocol") or not awaits(path, "shutdown_protocol"):
                return "a shutdown isn't waited for"
            return None if is_param(given(made[0], 1, "poll_rate"), "poll_rate") else "the rate isn't passed on"
        return None if asked is True else "a process isn't shut down"

    func = ctx.anchor_func(rule, f"{PKG}.close_protocol")
    if func is None:
        return
    each_return(ctx, rule, "close", f"{PKG}.close_protocol", None, close, label=label, opaque=OPAQUE, cap=2)


def protocol(ctx, rule) -> None:
    def put(path):
        return [x for x in path.labels if x[0] == "call" and x[1] in ("put_nowait", "put")]

    def received(path):
        first = truth(path.st, lambda a: a[0] == "cmp" and T.contains(a, lambda t: is_param(t, "fd")) and T.contains(a, lambda t: t == ("const", "int", 1)))
        second = truth(path.st, lambda a: a[0] == "cmp" and T.contains(a, lambda t: is_param(t, "fd")) and T.contains(a, lambda t: t == ("const", "int", 2)))
        done = put(path)
        name = "stdout_queue" if first else "stderr_queue" if first is False or second else None
        if name is None:
            return "output of a pipe isn't told apart"
        without = truth(path.st, lambda a: a[0] == "isnone" and own(a[1], name))
        if without is None:
            without = {True: False, False: True}.get(truth(path.st, lambda a: own(a, name)))
        if without:
            return None if not done else "output is put in another queue"
        if len(done) != 1 or not own(done[0][4], name) or not is_param(done[0][2][0], "data"):
            # Pipes that aren't output.
            return None if first is False and second is False and not done else "output isn't put in the queue of its pipe"
        return None

    each_return(ctx, rule, "received", f"{PROTO}.pipe_data_received", PROTO, received, label=label)

    def flushed(path, name):
        without = truth(path.st, lambda a: a[0] == "isnone" and own(a[1], name))
        done = [x for x in put(path) if own(x[4], name)]
        if without is None:
            return f"{name} isn't flushed"
        if without:
            return None
        empty = lambda t: called(t, "bytes") and not t[4] or t == ("const", "bytes", b"")
        return None if len(done) == 1 and empty(done[0][2][0]) else f"{name} isn't flushed"

    def lost(path):
        want = {"stdout_queue": 1, "stderr_queue": 2}
        for name, fd in want.items():
            mine = truth(path.st, lambda a: a[0] == "cmp" and T.contains(a, lambda t: is_param(t, "fd")) and T.contains(a, lambda t: t == ("const", "int", fd)))
            if mine:
                msg = flushed(path, name)
                if msg:
                    return msg
            elif mine is False and any(own(x[4], name) for x in put(path)):
                return "the queue of another pipe is flushed"
        return None

    tr = each_return(ctx, rule, "lost", f"{PROTO}.pipe_connection_lost", PROTO, lost, label=label)
    for name in ("stdout_queue", "stderr_queue") if tr is not None else ():
        ctx.ob(rule, f"lost/{name}", any(own(x[4], name) for path in tr.ret for x in put(path)), f"the end of a pipe isn't put in {name}", tr.func.where)

    def ended(path):
        sets = [x for x in calls(path, "set") if own(x[4], "exited")]
        if len(sets) != 1:
            return "the exit isn't signalled once"
        for name in ("stdout_queue", "stderr_queue"):
            msg = flushed(path, name)
            if msg:
                return msg
        at = where(path, sets[0])
        if any(where(path, x) > at for x in put(path)):
            return "the exit is signalled before output is flushed"
        took = [x for x in path.labels if x[0] == "store" and x[1] == "elapsed_time"]
        if len(took) != 1 or took[0][3][0] != "bin" or not called(took[0][3][2] if took[0][3][1] in ("-", "Sub") else took[0][3][1], "metrics_time_ns") or not own(took[0][3][3], "start_time"):
            return "the time that a process took isn't known"
        return None

    each_return(ctx, rule, "exited", f"{PROTO}.process_exited", PROTO, ended, label=label)

    def made(path):
        stores = {x[1]: x[3] for x in path.labels if x[0] == "store"}
        if not is_param(stores.get("transport"), "transport"):
            return "the transport isn't kept"
        if not called(stores.get("exited"), "Event") and (stores.get("exited") or ("",))[0] != "new":
            return "no exit can be signalled"
        if not called(stores.get("start_time"), "metrics_time_ns"):
            return "the time of a start isn't kept"
        for i, name in enumerate(("stdin", "stdout_transport", "stderr_transport")):
            pipe = next((t for t in T.walk(stores[name]) if called(t, "get_pipe_transport")), None) if name in stores else None
            if pipe is None or arg(pipe, 0, "fd") != ("const", "int", i):
                return f"{name} isn't the pipe that it's named for"
        return None

    each_return(ctx, rule, "made", f"{PROTO}.connection_made", PROTO, made, label=label)

    def init(path):
        stores = {x[1]: x[3] for x in path.labels if x[0] == "store"}
        ok = is_param(stores.get("stdout_queue"), "stdout") and is_param(stores.get("stderr_queue"), "stderr")
        return None if ok else "queues aren't kept"

    each_return(ctx, rule, "init", f"{PROTO}.__init__", PROTO, init, label=label)
    for name in ("stdout", "stderr"):
        each_return(ctx, rule, name, f"{PROTO}.{name}", PROTO, lambda path, name=name: None if own(T.strip(path.val), f"{name}_queue") else "another queue is provided", label=label)
    each_return(ctx, rule, "pid", f"{PROTO}.pid", PROTO, lambda path: None if called(T.strip(path.val), "get_pid") else "that's no process identifier", label=label)


def absent(st, pred):
    """Whether something is known to be None."""
    known = truth(st, lambda a: a[0] == "isnone" and pred(a[1]))
    if known is not None:
        return known
    return False if truth(st, pred) else None


def sized(term, name) -> bool:
    return called(term, "len") and is_param(term[4][0], name)


def handler(ctx, rule, name, metrics, feed, sink, source, key) -> None:
    """Data is counted, and everything parsed from it is passed on."""

    def pred(path):
        some = truth(path.st, lambda a: is_param(a, "data"))
        counts = calls(path, "increment")
        fed = calls(path, feed)
        if some is False or some is None and truth(path.st, lambda a: a[0] == "isnone" and is_param(a[1], "data")):
            return None if not fed else "nothing is parsed as something"
        if len(counts) != 1 or not own(counts[0][4], metrics) or not counts[0][2] or not sized(counts[0][2][0], "data"):
            return "data isn't counted once"
        if feed == "parse_event_stream":
            without = absent(path.st, lambda t: own(t, "peer"))
            if without is not False:
                return None if without and not fed else "events are handled without an environment"
        if len(fed) != 1 or not fed[0][2] or not mentions(fed[0][2][0], lambda t: is_param(t, "data")) or not source(fed[0][4]):
            return "data isn't parsed"
        return None

    each_return(ctx, rule, key, f"{BASE}.{name}", PEER, pred, label=label, opaque=[x for x in OPAQUE if x != name], cap=2)

    def lap(path):
        done = coros(path, sink)
        mine = [x for x in done if x[2] and x[2][0][0] == "iter" and callee(x[2][0][1], feed)]
        if len(mine) != 1 or sink == "ingest" and not source(mine[0][4]):
            return f"something that's received isn't passed to {sink}"
        return None if sink == "ingest" or awaits(path, sink) else "messages aren't processed in order"

    each_lap(ctx, rule, f"{key}/each", f"{BASE}.{name}", PEER, lambda t: t is not None and callee(t, feed), lap, label, opaque=[x for x in OPAQUE if x != name])


def peer(ctx, rule) -> None:
    handler(ctx, rule, "handle_stderr", "stderr_metrics", "parse_event_stream", "ingest", lambda t: own(t, "peer", "env"), "stderr")
    handler(ctx, rule, "handle_stdout", "stdout_metrics", "messages", "process_json", lambda t: own(t, "processor"), "stdout")

    def serviced(path):
        with_any = False
        for name in ("stdout", "stderr"):
            without = absent(path.st, lambda t: own(t, "protocol", f"{name}_queue"))
            if without is None:
                return f"{name} isn't serviced"
            if without is False:
                with_any = True
                if truth(path.st, lambda a: called(a, "empty") and mentions(a[3], lambda t: attr_of(t, name, f"{name}_queue"))) is not True:
                    return f"{name} isn't emptied"
            elif any(mentions(x[4], lambda t: attr_of(t, name, f"{name}_queue")) for x in calls(path, "get_nowait")):
                return f"{name} is read without a queue"
        val = T.strip(path.val)
        if val[0] == "const":
            return None if bool(val[2]) == with_any else "it isn't reported if there's more to service"
        return None if (truth(path.st, lambda a: a == val) in (with_any, None)) else "it isn't reported if there's more to service"

    each_return(ctx, rule, "service", f"{PEER}.service_queues", PEER, serviced, label=label, opaque=[x for x in OPAQUE if x != "service_queues"], cap=2)

    def lap(path):
        got = calls(path, "get_nowait")
        for x in got:
            name = "stdout" if mentions(x[4], lambda t: attr_of(t, "stdout", "stdout_queue")) else "stderr"
            done = coros(path, f"handle_{name}")
            mine = [y for y in done if y[2] and mentions(y[2][0], lambda t: called(t, "get_nowait") and mentions(t[3], lambda u: attr_of(u, name, f"{name}_queue")))]
            if not mine or name == "stdout" and not awaits(path, "handle_stdout"):
                return f"what's read from {name} isn't handled as that"
        return None

    each_lap(ctx, rule, "service/each", f"{PEER}.service_queues", PEER, lambda t: t is None, lap, label, opaque=[x for x in OPAQUE if x != "service_queues"], need=[("call", "handle_stderr"), ("call", "handle_stdout")])

    def wrote(path):
        out = [x for x in calls(path, "write") if mentions(x[4], lambda t: attr_of(t, "stdin"))]
        if len(out) != 1 or not is_param(out[0][2][0], "data"):
            return "data isn't written to the process"
        done = [x for x in calls(path, "increment") if own(x[4], "stdin_metrics") and x[2] and sized(x[2][0], "data")]
        return None if len(done) == 1 else "what's written isn't counted"

    each_return(ctx, rule, "write", f"{PEER}.write", PEER, wrote, label=label, opaque=[x for x in OPAQUE if x != "write"])

    # Tasks of a peer.
    def tasks_end(path):
        made = [i for i, x in enumerate(path.labels) if x[0] == "call" and x[1] in ("create_task", "ensure_future")]
        if not made:
            return None
        rest = path.labels[made[-1] + 1 :]
        ended = [i for i, x in enumerate(path.labels) if x[0] == "handler"]
        if ended and any(x[1] in ("service_queues", "process_command_queue") for x in path.labels[ended[0] :] if x[0] == "coro"):
            return "polling goes on when it's cancelled"
        if any(dict(x[3]).get("return_exceptions") != ("const", "bool", True) for x in calls(path, "gather")):
            return "polling doesn't end by itself"
        done = truth(path.st, lambda a: called(a, "done"))
        lost = truth(path.st, lambda a: a[0] == "isnone" and called(a[1], "create_task")) is True
        stopped = [x[4] for x in rest if x[0] == "call" and x[1] == "cancel"]
        waited = any(x[0] == "await" and mentions(x[1], lambda t: t in stopped) for x in rest)
        return None if done or lost or stopped and waited else "a task of commands is left behind"

    tr = each_return(ctx, rule, "poll/tasks", f"{PEER}._poll", PEER, tasks_end, label=label, opaque=[x for x in OPAQUE if x != "_poll"], cap=2)
    if tr is not None:
        ctx.ob(rule, "poll/cancelled", any(p.has("handler") for p in tr.ret), "cancelling polling doesn't end it", tr.func.where)
        ctx.ob(rule, "poll/again", any(calls(p, "done") for p in tr.ret), "commands are only processed once", tr.func.where)

    served = []

    def poll_lap(path):
        if awaits(path, "service_queues") and not path.has("handler"):
            again = truth(path.st, lambda a: callee(a, "service_queues"))
            served.append(again)
            if again and not any(x[0] == "call" and x[1] == "sleep" for x in path.labels):
                return "servicing queues doesn't let anything else run"
        return None

    each_lap(ctx, rule, "poll/each", f"{PEER}._poll", PEER, lambda t: t is None, poll_lap, label, opaque=[x for x in OPAQUE if x != "_poll"], need=[("coro", "service_queues"), ("coro", "process_command_queue")])

    def context(path):
        made = [x for x in calls(path, "create_task", "ensure_future") if callee(x[2][0], "_poll")]
        if len(made) != 1:
            return "nothing polls the process"
        at = where(path, made[0])
        rest = path.labels[at:]
        if any(x[0] == "await" for x in path.labels[:at]):
            return "messages are awaited before anything polls the process"
        out = [x for x in rest if x[0] == "yield"]
        if out:
            if out[0][1] is None or not is_self(out[0][1]):
                return "something else than the peer is provided"
            before = rest[: rest.index(out[0])]
            if not any(x[0] == "await" and callee(x[1], "loopback") for x in before):
                return "a peer is provided before its process responds"
            if truth(path.st, lambda a: callee(a, "loopback")) is True and path.kind == "ret" and not any(x[0] in ("coro", "call") and x[1] == "wait_json" for x in before):
                return "a process isn't told about its host"
        stopped = [x for x in rest if x[0] == "call" and x[1] == "cancel" and x[4] is not None and mentions(x[4], lambda t: callee(t, "_poll"))]
        waited = [x for x in rest if x[0] == "await" and mentions(x[1], lambda t: called(t, "create_task") and callee(t[4][0], "_poll"))]
        if not stopped or not waited:
            return "the task that polls is left behind"
        return None

    tr = every(ctx, rule, "context", f"{PEER}._context", PEER, context, only=lambda p: any(x[1] in ("create_task", "ensure_future") for x in p.labels if x[0] == "call") and any(x[0] in ("await", "yield") for x in p.labels))
    if tr is not None:
        full = [p for p in tr.ret if truth(p.st, lambda a: callee(a, "loopback")) and awaits(p, "share_environment")]
        first = lambda p: [x[1] for x in p.labels if x[0] in ("coro", "call") and x[1] in ("wait_json", "share_environment")][:1]
        ctx.ob(rule, "context/exchange", bool(full) and all(first(p) == ["wait_json"] for p in full), "environments aren't exchanged after the host is announced", tr.func.where)
        ctx.ob(rule, "context/silent", any(p.has("handler") and p.has("yield") for p in tr.ret), "a process that doesn't respond can't be used", tr.func.where)
        ctx.ob(rule, "context/body", any(p.has("yield") for p in tr.exc) and any(p.has("yield") for p in tr.ret), "the context can't fail", tr.func.where)

    for name in ("exec", "shell"):

        def entry(path, name=name):
            spawn = calls(path, f"spawn_{name}")
            if len(spawn) != 1:
                return "a process isn't started once"
            queue = lambda t: t is not None and (called(t, "Queue") or t[0] == "new" and "Queue" in str(t))
            out, err = given(spawn[0], None, "stdout"), given(spawn[0], None, "stderr")
            if not queue(out) or not queue(err) or len([x for x in path.labels if x[0] == "call" and x[1] in ("Queue", "__init__") and not x[2]]) < 2:
                return "output of a process has no queue of its own"
            if name == "shell" and not is_param(given(spawn[0], 0, "cmd"), "cmd"):
                return "the command isn't passed on"
            if name == "exec" and (not starred(spawn[0], "args") or not kept(spawn[0], "kwargs")):
                return "arguments of a program aren't passed on"
            ctxs = calls(path, "_context")
            if len(ctxs) != 1:
                return "a peer has no context"
            new = next((t for t in T.walk(ctxs[0][4]) if t[0] in ("call", "new", "obj")), None)
            made = [x for x in path.labels if x[0] == "call" and len(x[2]) == 3 and is_param(x[2][1], "name") and is_param(x[2][2], "config")]
            if new is None or not made or not mentions(made[0][2][0], lambda t: t[0] == "gen" and t[1].endswith(f"spawn_{name}") or called(t, f"spawn_{name}")):
                return "a peer isn't created with its process, name and configuration"
            if not is_param(dict(made[0][3]).get("markdown"), "markdown"):
                return "a description isn't passed on"
            gave = [x for x in path.labels if x[0] == "yield"]
            if gave and not mentions(gave[0][1], lambda t: t[0] == "gen" and t[1].endswith("_context") or called(t, "_context")):
                return "something else than the peer is provided"
            return None

        every(ctx, rule, name, f"{PEER}.{name}", PEER, entry, only=lambda p: p.has("yield"))

    def init(path):
        stores = {x[1]: x[3] for x in path.labels if x[0] == "store"}
        if not is_param(stores.get("protocol"), "protocol"):
            return "the process isn't kept"
        base = [x for x in calls(path, "__init__") if len(x[2]) + len(x[3]) == 3]
        if not base or not (is_param(given(base[0], 0, "name"), "name") and is_param(given(base[0], 1, "config"), "config") and is_param(given(base[0], 2, "markdown"), "markdown")):
            return "a peer isn't set up with its name and configuration"
        step = stores.get("curr_id")
        return None if step is not None and step[0] == "bin" and T.contains(step, lambda t: t == ("const", "int", 1)) else "identifiers of both ends can collide"

    func = ctx.anchor_func(rule, f"{PEER}.__init__")
    if func is not None:
        tr = ctx.trace(func, label, ctx.p.cls(PEER), opaque=lambda it, ev: ev.func is not None, cap=2)
        bad = next((p for p in tr.ret if init(p)), None)
        ctx.ob(rule, "init", bad is None and bool(tr.ret), init(bad) if bad else "never returns", func.where, bad.show() if bad else ())

    def running(path):
        run_it = calls(path, "exec")
        if len(run_it) != 1:
            return "a program isn't started once"
        x = run_it[0]
        if len(x[2]) < 5 or not is_param(x[2][0], "name") or not is_param(x[2][1], "config") or "executable" not in str(x[2][2]) or not starred(x, "args") or not kept(x, "kwargs"):
            return "a program isn't run as asked"
        return None if mentions(x[2][3], lambda t: callee(t, "_prepare_jit_script")) else "something else is run"

    every(ctx, rule, "running", f"{PEER}.running_program", PEER, running, only=lambda p: p.has("yield"), label=label)

    def script(path):
        first = [x for x in calls(path, "encode")]
        out = [x for x in path.labels if x[0] == "yield"]
        made = [x for x in path.labels if x[0] == "call" and x[1] in ("_write_script_harness",)]
        if not first or not made or not out:
            return "a script isn't provided"
        args = [given(made[0], i, n) for i, n in enumerate(("name", "path", "config_path", "import_str"))]
        if not is_param(args[0], "name") or not is_param(args[3], "import_str") or args[1] != out[0][1] or args[2] != given(first[0], 0, "path") or args[1] == args[2]:
            return "a script isn't written for the program that's asked for"
        return None if where(path, made[0]) < where(path, out[0]) else "a script is provided before it's written"

    func = ctx.anchor_func(rule, f"{PEER}._prepare_jit_script")
    if func is not None:
        tr = ctx.trace(func, label, ctx.p.cls(PEER), opaque=opaque_names("_write_script_harness", *OPAQUE), cap=2)
        rel = [p for p in tr.all if p.has("yield")]
        bad = next(((script(p), p) for p in rel if script(p)), None)
        ctx.ob(rule, "script", bad is None and bool(rel), bad[0] if bad else "never provides one", func.where, bad[1].show() if bad else ())


def program(ctx, rule) -> None:
    def reads(path):
        sets = [x for x in calls(path, "set") if own(x[4], "got_eof")]
        if len(sets) != 1:
            return "it isn't signalled that input ended"
        if truth(path.st, lambda a: called(a, "hasattr")) is not False and not any(x[0] == "call" and len(x[2]) == 2 and called(x[2][0], "fileno") and x[2][1] == ("const", "bool", False) for x in path.labels):
            return "reading input blocks everything else"
        if path.has("handler") or not calls(path, "read"):
            return None
        none = truth(path.st, lambda a: a[0] == "isnone" and called(a[1], "read"))
        some = truth(path.st, lambda a: called(a, "read"))
        return None if none is False and some is False else "input ends when there's none yet"

    tr = each_return(ctx, rule, "input/end", f"{PROGRAM}.io_task", PROGRAM, reads, label=label, opaque=[x for x in OPAQUE if x != "io_task"], cap=1)

    if tr is not None:
        ctx.ob(rule, "input/cancelled", any(p.has("handler") for p in tr.ret), "it isn't signalled that input ended when reading it is cancelled", tr.func.where)

    def lap(path):
        got = calls(path, "read")
        if not got or not is_param(got[0][4], "buffer"):
            return None if not any(x[0] == "end" and x[1] is None for x in path.labels) else "input isn't read"
        none = truth(path.st, lambda a: a[0] == "isnone" and called(a[1], "read"))
        if none:
            return None if any(x[0] == "call" and x[1] == "sleep" for x in path.labels) else "reading input doesn't let anything else run"
        some = truth(path.st, lambda a: called(a, "read"))
        parsed = calls(path, "messages")
        if some is not True:
            return "it's read on after the end of input"
        if len(parsed) != 1 or not called(parsed[0][2][0], "read") or not own(parsed[0][4], "processor"):
            return "input isn't parsed"
        counts = [x for x in calls(path, "increment") if own(x[4], "stdin_metrics")]
        return None if bool(coros(path, "process_json")) == bool(counts) else "input isn't counted"

    each_lap(ctx, rule, "input/each", f"{PROGRAM}.io_task", PROGRAM, lambda t: t is None, lap, label, opaque=[x for x in OPAQUE if x != "io_task"], outer=True)

    def message(path):
        done = [x for x in coros(path, "process_json") if x[2] and x[2][0][0] == "iter" and callee(x[2][0][1], "messages")]
        return None if len(done) == 1 and awaits(path, "process_json") else "a message isn't processed"

    each_lap(ctx, rule, "input/messages", f"{PROGRAM}.io_task", PROGRAM, lambda t: t is not None and callee(t, "messages"), message, label, opaque=[x for x in OPAQUE if x != "io_task"])

    def beat(path):
        ready = truth(path.st, lambda a: called(a, "is_set") and own(a[3], "_peer_env_event"))
        work = [x for x in path.labels if x[0] in ("coro", "call") and x[1] in ("wait_json", "process_command_queue")]
        if ready is not True and work:
            return "messages are sent before environments are exchanged"
        return None if any(x[0] == "call" and x[1] == "sleep" for x in path.labels) else "the heartbeat doesn't let anything else run"

    each_lap(ctx, rule, "heartbeat", f"{PROGRAM}.heartbeat_task", PROGRAM, lambda t: t is None, beat, label, opaque=[x for x in OPAQUE if x != "heartbeat_task"], need=[("coro", "wait_json"), ("coro", "process_command_queue"), ("call", "poll_psutil"), ("call", "update")])

    def standard(path):
        stores = {x[1]: x[3] for x in path.labels if x[0] == "store"}
        std = lambda t, name: t is not None and mentions(t, lambda u: u[0] in ("ext", "attr", "module") and str(u).count(name) > 0)
        if not std(stores.get("json_output"), "stdout") or not std(stores.get("stream_output"), "stderr"):
            return "messages and events aren't written to the streams that the host reads"
        if not called(stores.get("got_eof"), "Event") or "_singleton" not in stores or "stream_metrics" not in stores:
            return "a program isn't set up"
        made = calls(path, "create_task")
        task = coros(path, "io_task")
        if len(made) != 1 or not task or not std(task[0][2][0], "stdin"):
            return "input isn't read"
        val = T.strip(path.val)
        inst = next((x[2] for x in path.labels if x[0] == "store" and x[1] == "json_output"), None)
        if inst is None or inst[0] != "new" or len(inst[3]) != 2 or not is_param(inst[3][0], "name") or not is_param(inst[3][1], "config"):
            return "a program isn't set up with its name and configuration"
        if val[0] != "tuple" or not called(val[1][0], "create_task") or val[1][1] != inst or stores["_singleton"] != inst or task[0][4] != inst:
            return "another program is provided"
        return None

    each_return(ctx, rule, "standard", f"{PROGRAM}.run_standard", PROGRAM, standard, label=label, opaque=[x for x in OPAQUE if x != "run_standard"])

    def running(path):
        tasks = calls(path, "create_task")
        if any(not is_param(given(x, 0, "name"), "name") or not is_param(given(x, 1, "config"), "config") for x in calls(path, "run_standard")):
            return "a program isn't run as asked"
        if any(dict(x[3]).get("return_exceptions") != ("const", "bool", True) for x in calls(path, "gather")):
            return "the context of a program fails when its tasks are cancelled"
        mains = [x for x in tasks if callee(x[2][0], "main")]
        ready = [i for i, x in enumerate(path.labels) if x[0] == "await" and mentions(x[1], lambda t: called(t, "wait") and attr_of(t[3], "_peer_env_event"))]
        if mains and (not ready or ready[0] > where(path, mains[0])):
            return "the program starts before environments are exchanged"
        early = [i for i, x in enumerate(path.labels) if x[0] in ("call", "coro") and x[1] == "pre_environment_exchange"]
        if ready and (not early or early[0] > ready[0]):
            return "early initialization isn't early"
        out = [i for i, x in enumerate(path.labels) if x[0] == "yield"]
        if not out:
            return None
        val = path.labels[out[0]][1]
        beats = [x for x in tasks if callee(x[2][0], "heartbeat_task")]
        if len(mains) != 1 or len(beats) != 1 or not is_param(mains[0] and coros(path, "main")[0][2][0], "argv"):
            return "tasks of a program aren't started"
        if val is None or val[0] != "tuple" or len(val[1]) != 3 or not called(val[1][1], "create_task") or not callee(val[1][1][4][0], "main") or not all(mentions(val[1][i], lambda t: called(t, "run_standard")) for i in (0, 2)):
            return "something else than the tasks and the program is provided"
        if val[1][0] == val[1][2]:
            return "something else than the tasks and the program is provided"
        if not any(x[0] == "enter" and callee(x[1], "streaming_events") for x in path.labels[: out[0]]):
            return "events aren't streamed"
        rest = path.labels[out[0] :]
        stopped = [x[4] for x in rest if x[0] == "call" and x[1] == "cancel" and x[4] is not None]
        for want in ("main", "heartbeat_task"):
            if not any(called(t, "create_task") and callee(t[4][0], want) for t in stopped):
                return f"{want} is left behind"
        if val[1][0] not in stopped:
            return "io_task is left behind"
        if not any(x[0] == "await" and mentions(x[1], lambda t: called(t, "gather") or called(t, "wait")) for x in rest):
            return "tasks aren't waited for"
        if not [x for x in rest if x[0] in ("coro", "call") and x[1] == "cleanup"]:
            return "it isn't cleaned up"
        if path.kind == "ret" and not awaits(path, "cleanup"):
            return "it isn't cleaned up"
        return None if any(x[0] == "call" and x[1] == "removeHandler" for x in rest) else "logs are still captured"

    tr = every(ctx, rule, "running", f"{PROGRAM}.running", PROGRAM, running)
    if tr is not None:
        ctx.ob(rule, "running/body", any(p.has("yield") for p in tr.exc) and any(p.has("yield") for p in tr.ret), "a program never runs, or can't fail", tr.func.where)

    def runs(path):
        made = calls(path, "running")
        if len(made) != 1 or not (is_param(given(made[0], 0, "name"), "name") and is_param(given(made[0], 1, "config"), "config") and is_param(given(made[0], 2, "argv"), "argv")):
            return "a program isn't run as asked"
        got = [x[1] for x in path.labels if x[0] == "await" and x[1][0] in ("unpack", "sub") and mentions(x[1], lambda t: callee(t, "running"))]
        kinds = [x[2] if x[0] == "unpack" else x[2][2] for x in got]
        gathered = any(called(x, "gather") or called(x, "wait") for t in path.labels if t[0] == "await" for x in T.walk(t[1]))
        if sorted(kinds) != [0, 1] and not gathered:
            return "the end of a program isn't waited for"
        return None

    each_return(ctx, rule, "run", f"{PROGRAM}.run", PROGRAM, runs, label=label, opaque=[x for x in OPAQUE if x != "run"])

    def main(path):
        new = next((x[4] for x in coros(path, "load_configs")), None)
        if new is None or new[0] != "new" or not (own(dict(new[4]).get("stop_sig", T.NONE), "got_eof") or new[3] and any(own(x, "got_eof") for x in new[3])):
            return "an arbiter doesn't stop when input ends"
        if not any(x[4] == new for x in coros(path, "app")):
            return "the arbiter isn't run"
        saved = calls(path, "encode")
        loaded = coros(path, "load_configs")
        if len(saved) != 1 or not own(given(saved[0], 1, "data"), "struct", "config"):
            return "the configuration of the program isn't used"
        if len(loaded) != 1 or not mentions(loaded[0][2][0], lambda t: t == saved[0][2][0]) or dict(loaded[0][3]).get("wait_for_stop") != ("const", "bool", True):
            return "the configuration of the program isn't used"
        if where(path, saved[0]) > where(path, loaded[0]):
            return "the configuration is loaded before it's written"
        return None if awaits(path, "app") else "the arbiter isn't run"

    each_return(ctx, rule, "main", f"{PROGRAM}.main", PROGRAM, main, label=label, opaque=[x for x in OPAQUE if x != "main"])

    def wrote(path):
        out = [x for x in calls(path, "write") if own(x[4], "json_output")]
        if len(out) != 1 or not is_param(out[0][2][0], "data"):
            return "messages aren't written to the host"
        pushed = [x for x in calls(path, "flush") if own(x[4], "json_output")]
        if not pushed or where(path, pushed[-1]) < where(path, out[0]):
            return "messages aren't flushed"
        done = [x for x in calls(path, "increment") if own(x[4], "stdout_metrics") and x[2] and sized(x[2][0], "data")]
        return None if len(done) == 1 else "what's written isn't counted"

    each_return(ctx, rule, "write", f"{PROGRAM}.write", PROGRAM, wrote, label=label, opaque=[x for x in OPAQUE if x != "write"])

    def streams(path):
        reg = calls(path, "registered")
        if len(reg) != 1 or not own(given(reg[0], 0, "stream"), "stream_output") or dict(reg[0][3]).get("flush") != ("const", "bool", True) or not own(dict(reg[0][3]).get("channel", T.NONE), "stream_metrics"):
            return "events aren't streamed to the host"
        return None if reg[0][4] is not None and own(reg[0][4], "struct", "env") else "events of something else are streamed"

    every(ctx, rule, "streaming", f"{PROGRAM}.streaming_events", PROGRAM, streams, only=lambda p: p.has("yield"))

    def ticks(path):
        got = [x for x in calls(path, "poll") if x[4] is not None and own(x[4], "struct")]
        return None if len(got) == 1 else "a poll doesn't poll the struct"

    each_return(ctx, rule, "poll", f"{PROGRAM}.poll_handler", PROGRAM, ticks, label=label, opaque=[x for x in OPAQUE if x != "poll_handler"])


def exchange(ctx, rule) -> None:
    def set_env(path):
        without = absent(path.st, lambda t: own(t, "peer"))
        stores = {x[1]: x[3] for x in path.labels if x[0] == "store" and is_self(x[2])}
        val = T.strip(path.val)
        said = bool(val[2]) if val[0] == "const" else None
        if "peer" not in stores:
            return None if said is False and not calls(path, "set", "register_env") else "an environment is registered without a peer"
        if not mentions(stores["peer"], lambda t: callee(t, "load_json") and is_param(t[4][0] if t[0] == "call" else t[3][0], "data")):
            return "the environment of a peer isn't loaded"
        if not any(x[0] == "call" and x[1] == "load_json" for x in path.labels) or without is False:
            return "the environment of a peer is replaced"
        names = [x[2] for x in calls(path, "register_env")]
        if len(names) != 2 or not own(names[0][0], "struct", "name") or not own(names[0][1], "struct", "command"):
            return "environments aren't registered"
        if not any(own(x[4], "_peer_env_event") for x in calls(path, "set")):
            return "it isn't signalled that environments are exchanged"
        return None if said is True else "it isn't reported that the environment is used"

    each_return(ctx, rule, "environment", f"{BASE}._set_peer_env", BASE, set_env, label=label, opaque=[x for x in OPAQUE if x != "_set_peer_env"])

    def shared(path):
        sent = coros(path, "wait_json")
        made = coros(path, "_set_peer_env")
        if len(sent) != 1 or not awaits(path, "wait_json") or not mentions(sent[0][2][0], lambda t: callee(t, "export_json")) or "'env'" not in str(sent[0][2][0]):
            return "the environment isn't shared"
        if len(made) != 1 or not mentions(made[0][2][0], lambda t: t[0] == "sub" and t[2] == ("const", "str", "env") and callee(t[1], "wait_json")):
            return "the environment of the peer isn't used"
        return None

    each_return(ctx, rule, "share", f"{BASE}.share_environment", BASE, shared, label=label, opaque=[x for x in OPAQUE if x != "share_environment"])

    def config(path):
        sent = coros(path, "wait_json")
        if len(sent) != 1 or not awaits(path, "wait_json") or "'config'" not in str(sent[0][2][0]) or not mentions(sent[0][2][0], lambda t: is_param(t, "data")):
            return "the configuration isn't shared"
        return None

    each_return(ctx, rule, "share_config", f"{BASE}.share_config", BASE, config, label=label, opaque=[x for x in OPAQUE if x != "share_config"])

    def ticks(path):
        for name in ("stderr", "stdout", "stdin"):
            got = [x for x in calls(path, "poll") if own(x[4], f"{name}_metrics")]
            if len(got) != 1 or not is_param(given(got[0], 0, "time_ns"), "time_ns"):
                return f"metrics of {name} aren't polled"
        return None

    each_return(ctx, rule, "metrics", f"{BASE}.poll_metrics", BASE, ticks, label=label, opaque=[x for x in OPAQUE if x != "poll_metrics"])

    def registered(path):
        ends = [x for x in path.labels if x[0] == "call" and x[1] == "finalize"]
        if len(ends) != 1 or not own(ends[0][4], "struct", "env"):
            return "the environment isn't finalized once"
        regs = [x for x in path.labels if x[0] == "call" and x[1] == "register_channel_metrics"]
        stores = {x[1]: x[3] for x in path.labels if x[0] == "store"}
        for name in ("stderr", "stdout", "stdin"):
            mine = [x for x in regs if given(x, 0, "name") == ("const", "str", name)]
            if len(mine) != 1 or f"{name}_metrics" not in stores or given(mine[0], 1, "channel") not in (stores[f"{name}_metrics"],) and not own(given(mine[0], 1, "channel"), f"{name}_metrics"):
                return f"metrics of {name} aren't registered"
            if where(path, mine[0]) > where(path, ends[0]):
                return "metrics are registered after the environment is finalized"
        return None

    each_return(ctx, rule, "finalize", f"{BASE}._finalize_struct", BASE, registered, label=label, opaque=("register_channel_metrics", "finalize", "names_pushed"))

    def remote(path):
        wanted = truth(path.st, lambda a: attr_of(a, "remote"))
        sent = coros(path, "channel_command")
        if not wanted:
            return None if wanted is False and not sent else "it isn't told which commands are remote"
        if len(sent) != 1 or not awaits(path, "channel_command"):
            return "a remote command isn't sent"
        text, env = given(sent[0], 0, "command"), given(sent[0], None, "environment") or given(sent[0], 1, "environment")
        return None if attr_of(env, "env") and is_param(env[1], "args") and mentions(text, lambda t: attr_of(t, "extra")) else "a remote command isn't sent as it was given"

    each_return(ctx, rule, "remote", f"{BASE}.handle_command", BASE, remote, label=label, opaque=("channel_command", *OPAQUE))

    # Handlers of messages.
    func = ctx.anchor_func(rule, f"{BASE}._register_handlers")
    if func is None:
        return
    tr = ctx.trace(func, label, ctx.p.cls(BASE), opaque=opaque_names("basic_handler", *OPAQUE))
    found: dict = {}
    for path in tr.ret:
        for x in calls(path, "basic_handler"):
            if len(x[2]) > 1 and x[2][0][0] == "const":
                sub = next((f for t, (f, *_) in tr.it.closures.items() if T.strip(t) == x[2][1] or t == x[2][1]), None)
                found[x[2][0][2]] = sub
    for name, pred in (("env", env_handler), ("config", config_handler)):
        sub = found.get(name)
        ctx.ob(rule, f"handler/{name}", sub is not None and all(any(x[1] == "_register_handlers" for x in p.labels if x[0] == "call") for p in tr.ret), f"messages about {name} aren't handled", func.where)
        if sub is None:
            continue
        st = ctx.trace(sub, label, ctx.p.cls(BASE), opaque=opaque_names(*OPAQUE))
        bad = next(((pred(p), p) for p in st.ret if pred(p)), None)
        ctx.ob(rule, f"handler/{name}/paths", bad is None and bool(st.ret), bad[0] if bad else "never returns", sub.where, bad[1].show() if bad else ())


def env_handler(path):
    made = [x for x in path.labels if x[0] == "call" and x[1] == "_set_peer_env"]
    if len(made) != 1 or "inbox" not in str(made[0][2][0]):
        return "the environment of the peer isn't used"
    used = truth(path.st, lambda a: callee(a, "_set_peer_env"))
    gave = [x for x in path.labels if x[0] == "call" and x[1] == "update" and "outbox" in str(x[4]) and any(mentions(y, lambda t: callee(t, "export_json")) for y in x[2])]
    return None if used is not None and bool(gave) == used else "environments aren't exchanged once"


def config_handler(path):
    stores = {x[1]: x[3] for x in path.labels if x[0] == "store"}
    signalled = [x for x in path.labels if x[0] == "call" and x[1] == "set" and attr_of(x[4], "peer_config_event")]
    without = truth(path.st, lambda a: a[0] == "isnone" and attr_of(a[1], "peer_config"))
    if "peer_config" in stores:
        if not mentions(stores["peer_config"], lambda t: t[0] == "sub" and t[2] == ("const", "str", "config")):
            return "something else is stored"
        if without is False:
            return "the configuration of the peer is replaced"
        if not any(x[0] == "item" and "outbox" in str(x[1]) and x[2] == ("const", "str", "config") and mentions(x[3], lambda t: attr_of(t, "config")) for x in path.labels):
            return "the configuration isn't returned"
        return None if signalled else "it isn't signalled that a configuration arrived"
    return None if without is False and not signalled else "the configuration of the peer isn't kept"

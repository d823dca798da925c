"""C05: incremental parsers don't depend on how a byte stream is split."""

from __future__ import annotations

import ast

from sa import terms as T
from sa.props.common import current, current_none, current_truth, facts_of, is_param, self_attr

LEVEL = "proof"
EXPLANATION = (
    "Typestate over every path of each incremental parser (size-prefixed messages, event telemetry, HTTP messages and headers): everything received is "
    "buffered before parsing, a part is only consumed when complete, progress is recorded on the instance exactly when a part was consumed, what is "
    "emitted derives from the recorded header and the popped bytes, and progress is recorded before control goes to the consumer. A liveness rule over "
    "every stream parser reports loop-carried parse state kept in local variables (lost at a chunk boundary). Decided for all paths; the fifo is trusted."
)

PROC = "runtimepy.message.MessageProcessor"
TELEM = "runtimepy.channel.environment.telemetry.TelemetryChannelEnvironment"
HTTP = "runtimepy.net.http.HttpMessageProcessor"
HSTATE = "runtimepy.net.http.state.HeaderProcessingState"


def precedes(root, one, other) -> bool:
    """Determine if a statement comes before another one."""

    def walk(node):
        yield node
        for sub in ast.iter_child_nodes(node):
            yield from walk(sub)

    for node in walk(root):
        if node is one or node is other:
            return node is one
    return False


def is_pop(term) -> bool:
    return term[0] == "call" and term[2].split(".")[-1] == "pop" and bool(term[4])


def pops_in(term):
    return [t for t in T.walk(T.strip(term)) if is_pop(t)]


def missing(st, term):
    """Whether popped data is known to be missing: (by identity, by truth)."""
    none = truth = None
    target = T.strip(term)
    for atom, pol in facts_of(st):
        if atom[0] == "isnone" and _undata(atom[1]) == target:
            none = pol
        elif _undata(atom) == target:
            truth = pol
    return none, truth


def _undata(term):
    return T.strip(term)


def label_framing(e):
    ev = e.ev
    if e.kind == "call":
        if ev.attr == "ingest" and ev.args:
            return ("ingest", T.strip(ev.recv), T.strip(ev.args[0]))
        if ev.attr == "pop" and ev.args and ev.func is None:
            facts = tuple((n, t) for n, t in known_self(e.st, e.frame) if t is not None)
            return ("pop", T.strip(ev.args[0]), T.strip(ev.term), facts)
        if ev.attr == "update" and ev.args:
            return ("update", T.strip(ev.recv), T.strip(ev.args[0]), tuple((k, T.strip(v)) for k, v in ev.kwargs.items()))
        if ev.name.endswith("ParsedEvent"):
            return None
    if e.kind == "store" and ev.kind == "attr" and ev.value[0] == "const" and isinstance(ev.value[2], bool):
        return ("state", ev.name, ev.value[2])
    if e.kind == "yield" and e.frame.uid == "":
        return ("yield", T.strip(e.term))
    if e.kind == "iterend" and e.term is None:
        # An iteration that recorded no progress should be the last one.
        return ("cut",) if any(x[0] == "state" for x in e.st.mon) else ("stuck",)
    return None


def quiet(it, ev):
    return False


def known_self(st, frame):
    """Known truth values of the instance's current attributes."""
    names = {a[2] for a, _ in facts_of(st) if a[0] == "attr" and a[1][0] == "self"} | {n for b, n in st.heap if b[0] == "self"}
    return [(n, current_truth(st, frame.self_term, n)) for n in sorted(names)]


def check_framing(ctx, func, key, is_header, is_payload, emits, header_checks) -> None:
    """A two-stage parser that pops headers and payloads."""
    stats = {"header": 0, "payload": 0, "yield": 0}
    phase: dict = {}

    def bad(name, seg, msg):
        ctx.ob("R1", f"{key}/{name}", False, msg, func.where, seg.show())

    def segment(seg):
        names = seg.names()
        if "stuck" in names and "pop" in names[names.index("stuck") :]:
            bad("stop", seg, "keeps going without anything left to consume")
        if seg.kind == "ret" and "stuck" not in names and not any(x[0] == "pop" and missing(seg.st, x[2])[0] is True for x in seg.labels):
            bad("stop", seg, "stops before consuming everything that has arrived")
        for i, x in enumerate(seg.labels):
            if x[0] == "pop":
                kind = "header" if is_header(x[1]) else "payload" if is_payload(x[1]) else None
                if kind is None:
                    bad("size", seg, f"consumes {T.path(x[1])} bytes: neither the size of a header nor the one it announced")
                    continue
                stats[kind] += 1
                none, truth = missing(seg.st, x[2])
                rest = []
                for y in seg.labels[i + 1 :]:
                    if y[0] == "pop":
                        break
                    rest.append(y)
                states = [y for y in rest if y[0] == "state"]
                acted = bool(states) or any(y[0] in ("update", "yield") for y in rest)
                if acted and none is not False and truth is not True:
                    bad("complete", seg, "acts on data that may not have arrived completely")
                if kind == "payload" and truth is False and none is not True:
                    bad("empty", seg, "a payload without any bytes is taken for a missing one")
                if none is True:
                    continue
                if seg.kind == "exc":
                    # Control may not come back from the consumer.
                    if any(y[0] == "yield" for y in rest) and not states:
                        bad("abandon", seg, "hands a message out before recording that it was consumed")
                    continue
                if none is None and truth is None:
                    continue
                if not states:
                    bad("progress", seg, f"a consumed {kind} isn't recorded on the instance")
                    continue
                name, val = states[-1][1], states[-1][2]
                known = {pol for a, pol in x[3] if a == name}
                phase.setdefault(kind, set()).add((name, val))
                if kind == "header":
                    ups = [y for y in rest if y[0] == "update"]
                    msg = header_checks(x, ups)
                    if msg:
                        bad("header", seg, msg)
                    if any(y[0] == "yield" for y in rest):
                        bad("emit", seg, "emits before the payload was consumed")
                else:
                    outs = [y for y in rest if y[0] == "yield"]
                    stats["yield"] += len(outs)
                    if len(outs) != 1:
                        bad("emit", seg, f"emits {len(outs)} messages for a payload")
                    else:
                        msg = emits(x, outs[0][1])
                        if msg:
                            bad("emit", seg, msg)
                        first = [j for j, y in enumerate(rest) if y[0] == "yield"][0]
                        if not any(y[0] == "state" for y in rest[:first]):
                            bad("abandon", seg, "hands a message out before recording that it was consumed")
                if known == {val}:
                    bad("stage", seg, "consuming a part doesn't advance the parser")
                if not known and i == 0:
                    bad("stage", seg, "consumes a part without knowing which one is due")
        if seg.has("yield") and not seg.has("pop"):
            bad("emit", seg, "emits without consuming anything")

    tr = ctx.trace(func, label_framing, raises=quiet, restart="cut", segment=segment, cap=3, opaque=lambda it, ev: ev.func is not None and ev.func.name in ("set_value", "ingest") or ev.attr == "update")
    for path in tr.all:
        segment(path)
    # Everything is ingested first, once.
    firsts = []

    def seg_ingest(seg):
        pass

    tr = ctx.trace(func, lambda e: (lambda l: l if l and l[0] in ("ingest", "pop") else None)(label_framing(e)), raises=quiet, cap=1, opaque=lambda it, ev: ev.func is not None and ev.func.name in ("set_value", "ingest") or ev.attr == "update")
    for path in tr.ret:
        names = path.names()
        if names.count("ingest") != 1 or names[0] != "ingest":
            ctx.ob("R1", f"{key}/ingest", False, "received data isn't buffered (once) before parsing", func.where, path.show())
        elif not T.contains(path.labels[0][2], lambda t: t[0] == "param" and t[2] in ("data", "stream")):
            ctx.ob("R1", f"{key}/ingest", False, "something else than the received data is buffered", func.where, path.show())
    heads, tails = phase.get("header", set()), phase.get("payload", set())
    ok = len(heads) == 1 and len(tails) == 1 and next(iter(heads))[0] == next(iter(tails))[0] and next(iter(heads))[1] != next(iter(tails))[1]
    ctx.ob("R1", f"{key}/stages", ok, f"the stage recorded after headers {sorted(heads)} and payloads {sorted(tails)} isn't one alternating state", func.where)
    ctx.ob("R1", f"{key}/some", all(stats.values()), f"never reaches a stage: {stats}", func.where)
    for name in ("size", "complete", "empty", "progress", "header", "emit", "abandon", "stage", "ingest", "stop"):
        ctx.ob("R1", f"{key}/{name}", True)


# ------------------------------------------------------------------ liveness
def upward_exposed(loop) -> set[str]:
    """Locals that may be read in a loop iteration before being assigned."""
    exposed: set[str] = set()

    def names(node):
        return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)} if node is not None else set()

    def targets(node):
        return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}

    def block(stmts, done):
        done = set(done)
        for s in stmts:
            if isinstance(s, ast.If):
                exposed.update(names(s.test) - done)
                a, b = block(s.body, done), block(s.orelse, done)
                da = _leaves(s.body)
                db = _leaves(s.orelse)
                done = (b if da else a if db else a & b) | set()
            elif isinstance(s, (ast.While,)):
                exposed.update(names(s.test) - done)
                block(s.body, done)
                block(s.orelse, done)
            elif isinstance(s, (ast.For, ast.AsyncFor)):
                exposed.update(names(s.iter) - done)
                block(s.body, done | targets(s.target))
                block(s.orelse, done)
            elif isinstance(s, (ast.With, ast.AsyncWith)):
                for item in s.items:
                    exposed.update(names(item.context_expr) - done)
                    if item.optional_vars is not None:
                        done |= targets(item.optional_vars)
                done = block(s.body, done)
            elif isinstance(s, ast.Try):
                inner = block(s.body, done)
                for h in s.handlers:
                    block(h.body, done)
                block(s.orelse, inner)
                block(s.finalbody, done)
                done = inner if not s.handlers else done
            elif isinstance(s, ast.AugAssign):
                exposed.update((names(s.value) | targets(s.target)) - done)
            else:
                value = getattr(s, "value", None)
                reads = names(s) if value is None else names(value) | {x for t in getattr(s, "targets", [getattr(s, "target", None)]) if t is not None for x in names(t)}
                exposed.update(reads - done)
                done |= targets(s)
        return done

    done: set[str] = set()
    if not isinstance(loop, ast.While):
        done |= targets(loop.target)
    block(loop.body, done)
    return exposed


def _leaves(stmts) -> bool:
    return bool(stmts) and isinstance(stmts[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def chunk_state(func) -> list[tuple[str, int]]:
    """
    Parse state kept in locals: assigned a constant before a loop, reassigned
    within, and read there before being assigned, other than to decide whether
    the loop goes on or to accumulate a result.
    """
    out = []
    loops = [n for n in ast.walk(func.node) if isinstance(n, (ast.While, ast.For, ast.AsyncFor))]
    outer = [l for l in loops if not any(l is not o and any(l is n for n in ast.walk(o)) for o in loops)]
    for loop in outer:
        inside = {id(n) for n in ast.walk(loop)}
        assigned = {}
        for n in ast.walk(loop):
            if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.NamedExpr)):
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    for m in ast.walk(t):
                        if isinstance(m, ast.Name):
                            assigned.setdefault(m.id, n)
        for name in sorted(upward_exposed(loop) & set(assigned)):
            inits = [
                n
                for n in ast.walk(func.node)
                if id(n) not in inside
                and isinstance(n, (ast.Assign, ast.AnnAssign))
                and n.value is not None
                and any(isinstance(m, ast.Name) and m.id == name for t in (n.targets if isinstance(n, ast.Assign) else [n.target]) for m in ast.walk(t))
                and precedes(func.node, n, loop)
            ]
            if not inits or not isinstance(inits[-1].value, (ast.Constant, ast.UnaryOp, ast.List, ast.Dict)):
                continue
            if isinstance(inits[-1].value, (ast.List, ast.Dict)) and (getattr(inits[-1].value, "elts", None) or getattr(inits[-1].value, "keys", None)):
                continue
            if only_control(func, loop, name):
                continue
            out.append((name, inits[-1].lineno))
    return out


def only_control(func, loop, name) -> bool:
    """Uses of a local that only continue the loop or accumulate a result."""
    parents = {}
    for node in ast.walk(loop):
        for child in ast.iter_child_nodes(node):
            parents[child] = node
    for node in ast.walk(loop):
        if not (isinstance(node, ast.Name) and node.id == name):
            continue
        if isinstance(node.ctx, ast.Store):
            continue
        # Part of the loop's own condition.
        if isinstance(loop, ast.While) and any(node is n for n in ast.walk(loop.test)):
            continue
        # Accumulation: x = x op ... / x &= ... / inner loop conditions.
        cur = node
        ok = False
        while cur in parents:
            par = parents[cur]
            if isinstance(par, (ast.Assign, ast.AnnAssign)):
                tgts = par.targets if isinstance(par, ast.Assign) else [par.target]
                ok = any(isinstance(t, ast.Name) and t.id == name for t in tgts)
                break
            if isinstance(par, ast.If):
                # Leaving the loop early on an accumulated failure.
                ok = cur is par.test and all(isinstance(s, (ast.Break, ast.Return)) for s in par.body)
                break
            if isinstance(par, (ast.stmt,)):
                break
            cur = par
        if not ok:
            return False
    return True


def saved_state(func) -> list[tuple[str, str, int]]:
    """
    Locals loaded from the instance before a loop that changes them, but that
    aren't written back afterwards.
    """
    out = []
    loops = [n for n in ast.walk(func.node) if isinstance(n, (ast.While, ast.For, ast.AsyncFor))]
    for loop in loops:
        inside = {id(n) for n in ast.walk(loop)}
        exposed = upward_exposed(loop)
        for n in ast.walk(func.node):
            if isinstance(n, ast.Assign) and id(n) not in inside and precedes(func.node, n, loop) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                v = n.value
                if not (isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == "self"):
                    continue
                name = n.targets[0].id
                stored = any(isinstance(m, ast.Name) and m.id == name and isinstance(m.ctx, ast.Store) for m in ast.walk(loop))
                if not stored or name not in exposed:
                    continue
                back = [
                    m
                    for m in ast.walk(func.node)
                    if isinstance(m, ast.Assign)
                    and isinstance(m.value, ast.Name)
                    and m.value.id == name
                    and any(isinstance(t, ast.Attribute) and t.attr == v.attr for t in m.targets)
                ]
                if not back:
                    out.append((name, v.attr, n.lineno))
    return out


def stream_parsers(p) -> list:
    """Functions fed with consecutive pieces of a stream."""
    found = {}
    tcp = [c for n in ("runtimepy.net.tcp.connection.TcpConnection", "runtimepy.net.stream.base.PrefixedMessageConnection") if p.cls(n) for c in [p.cls(n), *p.subclasses(n)]]
    for cls in tcp:
        if p.is_subclass(cls, "runtimepy.net.udp.connection.UdpConnection"):
            continue
        for name in ("process_binary", "process_text", "process_telnet_message"):
            func = p.lookup(cls, name)
            if func is not None:
                found[func.qual] = func
    for qual in (f"{PROC}.process", f"{PROC}.messages", f"{TELEM}.parse_event_stream", f"{HTTP}.ingest", f"{HSTATE}.service"):
        func = p.func(qual)
        if func is not None:
            found[func.qual] = func
    # Helpers in the same class/module.
    for func in list(found.values()):
        for node in ast.walk(func.node):
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Name) and node.func.value.id == "self" and func.cls is not None:
                target = p.lookup(func.cls, node.func.attr)
                if target is not None and target.module is func.module and node.args:
                    found.setdefault(target.qual, target)
    return list(found.values())


def attr_end(term, *names) -> bool:
    return T.contains(term, lambda t: t[0] == "attr" and t[2] in names)


def run(ctx) -> None:
    p = ctx.p
    ctx.rule("R1", "two-stage parsers consume complete parts only, record progress on the instance, and emit what was consumed")
    ctx.rule("R2", "no parse state lives in a local variable across loop iterations of a stream parser")
    ctx.rule("R3", "HTTP messages are emitted with exactly the announced payload; header lines accumulate on the instance")
    ctx.rule("R4", "outgoing messages are prefixed with their encoded size; incoming ones reach the handler whole")
    ctx.rule("R6", "telnet bytes are each handled once: as data, an escape, a command, an option or a terminal signal")
    ctx.rule("R5", "a restarted stream connection doesn't keep partially received data")

    proc = ctx.anchor_func("R1", f"{PROC}.process")
    if proc is not None:
        def header_ok(pop, ups):
            good = [u for u in ups if attr_end(u[1], "message_length_in") and u[2] == pop[2]]
            if len(good) != 1:
                return "the announced size isn't decoded from the consumed header"
            order = dict(good[0][3]).get("byte_order")
            return None if order is not None and self_attr(order, "byte_order") else "the announced size isn't decoded in the stream's byte order"

        check_framing(
            ctx, proc, proc.qual,
            lambda a: attr_end(a, "prefix_size") or attr_end(a, "size") and not attr_end(a, "value"),
            lambda a: a[0] == "attr" and a[2] == "value" and attr_end(a, "message_length_in") or a[0] == "call" and attr_end(a, "message_length_in") and not a[4] or self_attr(a, "message_length_in", "raw", "value"),
            lambda pop, out: None if out == pop[2] or out[0] == "call" and out[2] == "bytes" and out[4] and out[4][0] == pop[2] else f"emits {T.path(out)} instead of the consumed payload",
            header_ok,
        )

    tel = ctx.anchor_func("R1", f"{TELEM}.parse_event_stream")
    if tel is not None:
        def from_header(term, key):
            return T.contains(term, lambda t: t[0] == "sub" and attr_end(t[1], "event_header") and t[2] == T.const(key))

        def emits(pop, out):
            args = list(out[3]) if out[0] == "new" else list(out[4]) if out[0] == "call" else []
            kw = dict(out[4] if out[0] == "new" else out[5]) if out[0] in ("new", "call") else {}
            name = args[0] if args else kw.get("name")
            stamp = args[1] if len(args) > 1 else kw.get("timestamp")
            value = args[2] if len(args) > 2 else kw.get("value")
            if name is None or stamp is None or value is None:
                return f"emits {T.path(out)}, not an event"
            if not from_header(name, "identifier"):
                return f"the event's name ({T.path(name)}) isn't looked up from the consumed header"
            if not from_header(stamp, "timestamp"):
                return "the event's timestamp isn't the consumed header's"
            dec = [t for t in T.walk(value) if t[0] == "call" and t[2].split(".")[-1] == "decode"]
            if not dec or not dec[0][4] or dec[0][4][0] != pop[2]:
                return "the event's value isn't decoded from the consumed bytes"
            order = dict(dec[0][5]).get("byte_order")
            if order is None or not attr_end(order, "byte_order") or not attr_end(order, "event_header"):
                return "the event's value isn't decoded in the stream's byte order"
            kind = dec[0][3]
            if kind is None or T.strip(pop[1])[0] != "attr" or T.strip(pop[1])[1] != kind:
                return "the consumed size isn't that of the decoded kind"
            if not from_header(kind, "identifier"):
                return "the decoded kind isn't the one of the announced channel"
            return None

        def header_ok2(pop, ups):
            good = [u for u in ups if attr_end(u[1], "event_header") and u[2] == pop[2]]
            return None if len(good) == 1 else "the header isn't decoded from the consumed bytes"

        check_framing(ctx, tel, tel.qual, lambda a: attr_end(a, "event_header") and attr_end(a, "size") and not T.contains(a, lambda t: t[0] == "sub"), lambda a: a[0] == "attr" and a[2] == "size", emits, header_ok2)

    check_http(ctx)
    check_telnet(ctx)

    parsers = stream_parsers(p)
    ctx.floor("R2", "stream parsers", len(parsers), 10)
    for func in parsers:
        ctx.functions.add(func.qual)
        hits = chunk_state(func)
        ctx.ob("R2", func.qual, not hits, f"parse state in local variable(s) {', '.join(h[0] for h in hits)} is lost when the stream is split", f"{func.module.rel}:{hits[0][1] if hits else func.node.lineno}")
        lost = saved_state(func)
        ctx.ob("R2", f"{func.qual}/saved", not lost, f"parse state {', '.join(h[1] for h in lost)} is loaded but never written back", f"{func.module.rel}:{lost[0][2] if lost else func.node.lineno}")

    check_prefixed(ctx)


def check_http(ctx) -> None:
    p = ctx.p
    func = ctx.anchor_func("R3", f"{HTTP}.ingest")
    if func is not None:
        def label(e):
            ev = e.ev
            if e.kind == "call":
                if ev.attr == "ingest" and ev.args:
                    return ("ingest", T.strip(ev.args[0]))
                if ev.attr == "pop" and ev.args:
                    return ("pop", T.strip(ev.args[0]), T.strip(ev.term), *sizes(e.st, ev.args[0]))
                if ev.func is not None and ev.func.name == "service":
                    return ("service", current_none(e.st, e.frame.self_term, "current_header"))
            if e.kind == "store" and ev.kind == "attr" and ev.name == "current_header" and ev.base[0] == "self":
                return ("header", T.strip(ev.value))
            if e.kind == "yield" and e.frame.uid == "":
                head = e.term[1][0] if e.term[0] == "tuple" and e.term[1] else None
                size = [a for atom, _ in e.st.facts for a in T.walk(atom) if a[0] == "attr" and a[2] == "content_length" and a[1] == head]
                return ("yield", T.strip(e.term), any(sizes(e.st, s)[1] for s in size))
            if e.kind == "iterend" and e.term is None:
                if any(x[0] == "yield" for x in e.st.mon):
                    return ("cut",)
                none = current_none(e.st, e.frame.self_term, "current_header")
                head = current(e.st, e.frame.self_term, "current_header")
                waits = any(a[0] == "cmp" and a[1] == "<" and attr_end(a[2], "size") and a[3][0] == "attr" and a[3][2] == "content_length" and a[3][1] == head and pol for a, pol in e.st.facts)
                return [("idle", none, waits), ("cut",)]
            return None

        def sizes(st, size):
            """Whether at least (or no) 'size' bytes are known to be there."""
            enough = zero = False
            for atom, pol in st.facts:
                if atom[0] != "cmp":
                    continue
                if atom[1] == "<" and attr_end(atom[2], "size") and atom[3] == size:
                    enough = enough or not pol
                if atom[1] == "<" and attr_end(atom[3], "size") and atom[2] == size:
                    enough = enough or pol
                if atom[1] == "==" and size in atom[2:4] and T.const(0) in atom[2:4]:
                    zero = zero or pol
                if atom[1] == "<" and atom[2] == T.const(0) and atom[3] == size:
                    zero = zero or not pol
                if atom[1] == "<" and atom[2] == size and atom[3] == T.const(1):
                    zero = zero or pol
            return enough, zero or st.known(size, False)

        key = func.qual
        stats = {"yield": 0, "pop": 0, "service": 0}

        def length(t):
            return attr_end(t, "content_length")

        def segment(seg):
            for x in seg.labels:
                if x[0] in stats:
                    stats[x[0]] += 1
            pops = seg.get("pop")
            outs = seg.get("yield")
            for x in seg.get("idle"):
                if x[1] is not True and not x[2]:
                    ctx.ob("R3", f"{key}/wait", False, "a header is left pending although its payload may be complete", func.where, seg.show())
            for x in pops:
                if not length(x[1]):
                    ctx.ob("R3", f"{key}/size", False, f"consumes {T.path(x[1])} bytes, not the announced payload", func.where, seg.show())
                if not x[3] and not x[4]:
                    ctx.ob("R3", f"{key}/complete", False, "consumes a payload that may not have arrived completely", func.where, seg.show())
            if any(x[4] for x in pops):
                # Nothing is consumed for an empty payload (infeasible).
                return
            for x in outs:
                val = x[1]
                parts = val[1] if val[0] == "tuple" else ()
                if len(parts) != 2:
                    ctx.ob("R3", f"{key}/emit", False, f"emits {T.path(val)}", func.where, seg.show())
                    continue
                body = parts[1]
                if pops and body != pops[-1][2] or not pops and body != T.NONE:
                    ctx.ob("R3", f"{key}/emit", False, "the emitted payload isn't the consumed one", func.where, seg.show())
                if not x[2] and not pops:
                    ctx.ob("R3", f"{key}/emit", False, "a message is emitted without its payload", func.where, seg.show())
                if not any(y == ("header", T.NONE) for y in seg.labels[: seg.index("yield")]):
                    ctx.ob("R3", f"{key}/next", False, "a message isn't retired before it's handed to the consumer", func.where, seg.show())
            if pops and not outs and seg.kind != "exc":
                ctx.ob("R3", f"{key}/emit", False, "a consumed payload isn't emitted", func.where, seg.show())
            if not outs and seg.kind != "exc" and any(y == ("header", T.NONE) for y in seg.labels):
                ctx.ob("R3", f"{key}/next", False, "a header is dropped before its message was emitted", func.where, seg.show())
            for x in seg.get("service"):
                if x[1] is not True:
                    ctx.ob("R3", f"{key}/service", False, "a new header is parsed although one is pending", func.where, seg.show())

        tr = ctx.trace(func, label, raises=quiet, restart="cut", segment=segment, cap=3, opaque=lambda it, ev: ev.func is not None and ev.func.name in ("service",))
        for path in tr.all:
            segment(path)
        tr = ctx.trace(func, lambda e: (lambda l: l if l and l[0] in ("ingest", "pop", "service") else None)(label(e)), raises=quiet, cap=1, opaque=lambda it, ev: ev.func is not None and ev.func.name in ("service",))
        for path in tr.ret:
            if not path.labels or path.labels[0][0] != "ingest" or path.count("ingest") != 1 or not is_param(path.labels[0][1], "data"):
                ctx.ob("R3", f"{key}/ingest", False, "received data isn't buffered (once) before parsing", func.where, path.show())
        for name in ("size", "complete", "emit", "next", "service", "ingest", "wait"):
            ctx.ob("R3", f"{key}/{name}", True)
        ctx.ob("R3", f"{key}/some", all(stats.values()), f"never reaches a stage: {stats}", func.where)

    func = ctx.anchor_func("R3", f"{HSTATE}.service")
    if func is not None:
        def label2(e):
            ev = e.ev
            if e.kind == "call" and ev.attr == "pop" and ev.args:
                return ("pop", T.strip(ev.args[0]))
            if e.kind == "call" and ev.attr in ("append",) and ev.recv is not None and self_attr(T.strip(ev.recv), "lines"):
                return ("line", T.strip(ev.args[0]))
            if e.kind == "call" and ev.attr == "from_lines" and ev.args:
                return ("parse", T.strip(ev.args[0]), current_truth(e.st, e.frame.self_term, "line"))
            if e.kind == "call" and ev.attr == "clear" and ev.recv is not None and self_attr(T.strip(ev.recv), "lines"):
                return ("reset", "lines")
            if e.kind == "store" and ev.kind == "attr" and ev.base[0] == "self":
                val = T.strip(ev.value)
                if val in (("const", "str", ""),) or val[0] == "list" and not val[1]:
                    return ("reset", ev.name)
                before = T.strip(current(e.st, ev.base, ev.name))
                if val[0] == "bin" and val[1] == "+" and (self_attr(val[2], ev.name) or val[2] == before) or val[0] == "fstr" and val[1] and (self_attr(val[1][0], ev.name) or val[1][0] == before):
                    return ("add", ev.name, val[-1])
                return ("store", ev.name, val)
            if e.kind == "iterend" and e.term is None:
                return ("cut",)
            return None

        key = func.qual
        stats = {"line": 0, "parse": 0, "add": 0}

        def segment2(seg):
            if not seg.has("pop"):
                return
            for x in seg.labels:
                if x[0] in stats:
                    stats[x[0]] += 1
            if any(x[1] != T.const(1) for x in seg.get("pop")):
                ctx.ob("R3", f"{key}/pop", False, "doesn't consume single bytes", func.where, seg.show())
            if seg.kind == "exc":
                return
            eq = {}
            for atom, pol in facts_of(seg.st):
                if atom[0] == "cmp" and atom[1] == "==":
                    for c in atom[2:4]:
                        if c[0] == "const" and c[2] in ("\n", "\r"):
                            eq[c[2]] = pol
            if any(x[0] == "store" and x[1] in ("line", "lines") for x in seg.labels):
                ctx.ob("R3", f"{key}/keep", False, "accumulated header data is overwritten", func.where, seg.show())
            if seg.has("line"):
                if not self_attr(seg.get("line")[0][1], "line") or ("reset", "line") not in seg.labels:
                    ctx.ob("R3", f"{key}/line", False, "a finished line isn't moved to the header's lines", func.where, seg.show())
                if eq.get("\n") is not True:
                    ctx.ob("R3", f"{key}/line", False, "a line is finished without a line feed", func.where, seg.show())
            if seg.has("parse"):
                if not self_attr(seg.get("parse")[0][1], "lines") or ("reset", "lines") not in seg.labels or eq.get("\n") is not True or seg.get("parse")[0][2] is not False:
                    ctx.ob("R3", f"{key}/parse", False, "a header isn't built from all of its lines at the blank line", func.where, seg.show())
            if eq.get("\n") is True and not seg.has("line") and not seg.has("parse"):
                ctx.ob("R3", f"{key}/line", False, "a line feed neither finishes a line nor a header", func.where, seg.show())
            if eq.get("\n") is False and eq.get("\r") is not True and not seg.has("add") and not none_pop(seg):
                ctx.ob("R3", f"{key}/add", False, "a header byte is dropped", func.where, seg.show())

        tr = ctx.trace(func, label2, raises=quiet, restart="cut", segment=segment2, cap=3)
        for path in tr.all:
            segment2(path)
        tr = ctx.trace(func, lambda e: (lambda l: l if l and l[0] in ("pop", "parse") else None)(label2(e)), raises=quiet, cap=2)
        for path in tr.all:
            if path.kind == "ret" and path.has("parse") and (path.val is None or T.is_const(path.val)):
                ctx.ob("R3", f"{key}/done", False, "a completed header isn't returned", func.where, path.show())
        for name in ("pop", "keep", "line", "parse", "add", "done"):
            ctx.ob("R3", f"{key}/{name}", True)
        ctx.ob("R3", f"{key}/some", all(stats.values()), f"never reaches a stage: {stats}", func.where)


def none_pop(seg) -> bool:
    return any(atom[0] == "isnone" and is_pop(atom[1]) and pol for atom, pol in facts_of(seg.st))


TELNET = "runtimepy.net.tcp.telnet.Telnet"


def check_telnet(ctx) -> None:
    """The telnet control-sequence state machine."""
    func = ctx.anchor_func("R6", f"{TELNET}.process_binary")
    if func is None:
        return
    key = func.qual

    def label(e):
        ev = e.ev
        if e.kind in ("call", "coro"):
            name = ev.func.name if ev.func is not None else ev.attr
            if name == "process_option":
                return ("option", T.strip(ev.args[0]) if ev.args else None, T.strip(ev.args[1]) if len(ev.args) > 1 else None) if e.kind == "coro" else None
            if name in ("process_command", "handle_nvt"):
                return (name, T.strip(ev.args[0]) if ev.args else None) if e.kind == "coro" else None
            if name == "process_telnet_message":
                return ("message", T.strip(ev.args[0]) if ev.args else None) if e.kind == "coro" else None
            if e.kind == "call" and ev.attr == "read":
                held = {n: t for (uid, n), t in e.st.env.items() if uid == e.frame.uid and t[0] in ("phi", "attr", "const")}
                held.update({n: t for (b, n), t in e.st.heap.items() if b[0] == "self"})
                for atom, _ in e.st.facts:
                    if atom[0] == "attr" and atom[1][0] == "self":
                        held.setdefault(atom[2], current(e.st, e.frame.self_term, atom[2]))
                return ("vars", tuple(sorted(held.items(), key=lambda x: x[0])))
            if e.kind == "call" and ev.attr == "write" and ev.args:
                return ("write", T.strip(ev.recv), T.strip(ev.args[0]))
            if e.kind == "call" and name == "to_stream":
                return ("nvt", T.strip(ev.args[0]) if ev.args else None)
        if e.kind == "await" and e.term[0] in ("coro", "call"):
            return ("await", str(e.term[1] if e.term[0] == "coro" else e.term[2]).rsplit(".", 1)[-1])
        if e.kind == "store" and ev.value[0] == "const" and isinstance(ev.value[2], bool):
            return ("set", ev.name, ev.value[2])
        if e.kind == "iterend":
            return ("cut",)
        return None

    def is_call(atom, name):
        return atom[0] == "call" and atom[2].split(".")[-1] == name

    segs = []

    def segment(seg):
        if seg.kind == "seg":
            segs.append(seg)

    tr = ctx.trace(func, label, raises=quiet, restart="cut", segment=segment, cap=3, opaque=lambda it, ev: ev.func is not None and ev.func.name in ("is_option_code", "is_nvt", "to_stream", "process_option", "process_command", "handle_nvt", "process_telnet_message"))

    def names(seg, pol):
        """Variables whose truth was known when the byte was read."""
        held = seg.get("vars")
        return {n for n, t in (held[-1][1] if held else ()) if seg.st.known(t, pol)}

    def bad(rule, seg, msg):
        ctx.ob("R6", f"{key}/{rule}", False, msg, func.where, seg.show())

    options = [s for s in segs if s.has("option")]
    commands = [s for s in segs if s.has("process_command")]
    ctx.ob("R6", f"{key}/some", bool(options) and bool(commands) and any(s.has("handle_nvt") for s in segs) and any(s.has("write") for s in segs), "commands, options, terminal signals or data are never handled", func.where)
    sets = {(x[1], x[2]) for s in segs for x in s.get("set")}
    state = {n for n, v in sets if v and (n, False) in sets}
    seen = [s for s in segs if (names(s, True) | names(s, False)) & state]
    options, commands = [s for s in options if s in seen], [s for s in commands if s in seen]
    opt = set.intersection(*[names(s, True) & state for s in options]) if options else set()
    cmd = set.intersection(*[names(s, True) & state for s in commands]) if commands else set()
    if state:
        ctx.ob("R6", f"{key}/states", len(opt) == 1 and len(cmd) == 1 and opt != cmd, f"the byte after a command and after an option code aren't told apart ({sorted(opt)}, {sorted(cmd)})", func.where)
    opt_name = next(iter(opt)) if len(opt) == 1 else None
    cmd_name = next(iter(cmd)) if len(cmd) == 1 else None
    for seg in segs:
        facts = facts_of(seg.st)
        iac = {pol for a, pol in facts if a[0] == "cmp" and a[1] == "==" and any(x[0] == "attr" and x[2] == "IAC" for x in a[2:4])}
        code = {pol for a, pol in facts if is_call(a, "is_option_code")}
        nvt = {pol for a, pol in facts if is_call(a, "is_nvt")}
        shown = {pol for a, pol in facts if is_call(a, "to_stream")}
        handled = seg.count("option") + seg.count("process_command") + seg.count("write") + seg.count("nvt")
        ups = [x for x in seg.get("set") if x[2] and x[1] in state]
        if state and handled + len(ups) != 1:
            bad("once", seg, f"a byte is handled {handled + len(ups)} times")
        for x in seg.get("write"):
            plain = True not in iac and False in iac and True not in nvt and False in nvt
            if not plain and iac != {True}:
                bad("data", seg, "a control byte is taken for data")
        if seg.has("handle_nvt") and (True not in nvt or shown != {False}):
            bad("nvt", seg, "data is taken for a terminal signal")
        if shown == {False} and not seg.has("handle_nvt"):
            bad("nvt", seg, "a terminal signal is dropped")
        if seg.has("process_command") and (iac != {False} or code != {False}):
            bad("command", seg, "an escape or option is taken for a command")
        for x in seg.get("option"):
            if x[1] is None or x[2] is None or T.mentions(x[1], x[2]) and x[2][0] != "const":
                bad("option", seg, "the option handler isn't given the previous byte's code and the current one")
        for name in ("option", "process_command", "handle_nvt"):
            awaited = "process_option" if name == "option" else name
            if seg.has(name) and ("await", awaited) not in seg.labels:
                bad("await", seg, f"{awaited} isn't awaited")
        if opt_name and cmd_name and seg in seen:
            down = {x[1] for x in seg.get("set") if not x[2]}
            raised = {x[1] for x in ups}
            in_opt = opt_name in names(seg, True)
            in_cmd = not in_opt and cmd_name in names(seg, True)
            if in_opt and (not seg.has("option") or opt_name not in down or raised):
                bad("next", seg, "the byte after an option code isn't (only) handled as an option")
            if in_cmd and (cmd_name not in down or seg.has("option") or True in code and raised != {opt_name}):
                bad("next", seg, "the byte after IAC isn't handled as a command")
            if not in_opt and not in_cmd:
                if seg.has("option") or seg.has("process_command"):
                    bad("next", seg, "data is handled as a command")
                if True in iac and raised != {cmd_name}:
                    bad("next", seg, "IAC doesn't start a command")
    # What remains is forwarded as one message.
    for path in tr.ret:
        empty = {pol for a, pol in facts_of(path.st) if T.contains(a, lambda t: t[0] == "call" and t[2].split(".")[-1] in ("tell", "getvalue"))}
        if not path.has("message") and empty != {False}:
            bad("forward", path, "data isn't forwarded")
        for x in path.get("message"):
            if x[1] is None or not T.contains(x[1], lambda t: t[0] == "call" and t[2].split(".")[-1] == "getvalue"):
                bad("forward", path, "something else than the collected data is forwarded")
            if ("await", "process_telnet_message") not in path.labels:
                bad("forward", path, "forwarding isn't awaited")
            if path.val is None or T.is_const(path.val):
                bad("forward", path, "the handler's verdict is dropped")
    for name in ("once", "data", "nvt", "command", "option", "await", "next", "forward"):
        ctx.ob("R6", f"{key}/{name}", True)


def check_prefixed(ctx) -> None:
    p = ctx.p
    enc = ctx.anchor_func("R4", f"{PROC}.encode")
    if enc is not None:
        def label(e):
            ev = e.ev
            if e.kind == "call" and ev.func is not None and ev.func.name == "set_value" and ev.recv is not None:
                return ("size", T.strip(ev.recv), T.strip(ev.param("value")))
            if e.kind == "store" and ev.kind == "attr" and ev.name == "value":
                return ("size", T.strip(ev.base), T.strip(ev.value))
            if e.kind == "call" and ev.attr == "to_stream":
                kw = {k: T.strip(v) for k, v in ev.kwargs.items()}
                return ("prefix", T.strip(ev.recv), kw.get("byte_order", T.strip(ev.args[1]) if len(ev.args) > 1 else None), T.strip(ev.args[0]) if ev.args else None)
            if e.kind == "call" and ev.attr == "read":
                held = {n: t for (uid, n), t in e.st.env.items() if uid == e.frame.uid and t[0] in ("phi", "attr", "const")}
                held.update({n: t for (b, n), t in e.st.heap.items() if b[0] == "self"})
                for atom, _ in e.st.facts:
                    if atom[0] == "attr" and atom[1][0] == "self":
                        held.setdefault(atom[2], current(e.st, e.frame.self_term, atom[2]))
                return ("vars", tuple(sorted(held.items(), key=lambda x: x[0])))
            if e.kind == "call" and ev.attr == "write" and ev.args:
                return ("write", T.strip(ev.recv), T.strip(ev.args[0]))
            return None

        tr = ctx.trace(enc, label, raises=quiet, opaque=lambda it, ev: ev.attr in ("to_stream", "set_value"))
        for path in tr.ret:
            prefix, writes = path.get("prefix"), path.get("write")
            msg = None
            if len(prefix) != 1 or len(writes) != 1:
                msg = "doesn't write one size prefix and one payload"
            else:
                body = writes[0][2]
                sizes = [x for x in path.get("size") if x[1] == prefix[0][1]]
                is_text = [pol if "str" in T.path(a[2]) else not pol for a, pol in facts_of(path.st) if a[0] == "isinstance" and is_param(a[1], "data")]
                encoded = body[0] == "call" and body[2].split(".")[-1] == "encode" and body[3] is not None and is_param(body[3], "data")
                if path.index("prefix") > path.index("write"):
                    msg = "the prefix follows the payload"
                elif path.last("size") > path.index("prefix"):
                    msg = "the prefix is written before it's updated"
                elif not sizes or not any(x[2][0] == "call" and x[2][2] == "len" and x[2][4] == (body,) for x in sizes):
                    msg = "the prefix isn't the size of the bytes that follow"
                elif prefix[0][2] is None or not self_attr(prefix[0][2], "byte_order"):
                    msg = "the prefix isn't written in the stream's byte order"
                elif prefix[0][3] != writes[0][1]:
                    msg = "the prefix and payload are written to different streams"
                elif not (is_param(body, "data") or encoded):
                    msg = f"{T.path(body)} is written instead of the message"
                elif (True in is_text or False not in is_text) and not encoded:
                    msg = "text isn't converted to bytes"
            if msg:
                ctx.ob("R4", enc.qual, False, msg, enc.where, path.show())
        ctx.ob("R4", enc.qual, bool(tr.ret), "never completes", enc.where)
        # Both directions use the same kind.
        init = p.func(f"{PROC}.__init__")
        kinds = {}
        if init is not None:
            def lab_init(e):
                if e.kind == "store" and e.ev.kind == "attr" and e.ev.name in ("message_length_in", "message_length_out"):
                    return ("kind", e.ev.name, T.strip(e.ev.value))
                if e.kind == "store" and e.ev.kind == "attr" and e.ev.name == "prefix_size":
                    return ("psize", T.strip(e.ev.value))
                return None

            tr = ctx.trace(init, lab_init, raises=quiet)
            for path in tr.ret:
                kinds = {x[1]: x[2] for x in path.get("kind")}
                ctx.ob("R4", f"{PROC}/kinds", len(set(kinds.values())) == 1 and len(kinds) == 2, "sizes are encoded and decoded with different kinds", init.where, path.show())
                for x in path.get("psize"):
                    ok = attr_end(x[1], "size") or x[1][0] == "const"
                    ctx.ob("R4", f"{PROC}/prefix", ok, "the prefix size isn't that of the size primitive", init.where)

    func = ctx.anchor_func("R4", "runtimepy.net.stream.base.PrefixedMessageConnection.process_binary")
    if func is not None:
        def label_rx(e):
            ev = e.ev
            if e.kind == "call" and ev.func is not None and ev.func.qual == f"{PROC}.process":
                return ("parse", T.strip(ev.args[0]) if ev.args else None)
            if e.kind == "loop" and not e.extra and T.contains(e.term, lambda t: t[0] in ("gen", "call") and str(t[1] if t[0] == "gen" else t[2]).endswith(".process")):
                src = [t for t in T.walk(e.term) if t[0] in ("gen", "call") and str(t[1] if t[0] == "gen" else t[2]).endswith(".process")]
                args = src[0][3] if src[0][0] == "gen" else src[0][4]
                return ("loop", T.strip(args[0]) if args else None)
            if e.kind == "iterend":
                return ("cut",)
            if e.kind == "call" and ev.func is not None and ev.func.name == "process_single":
                return ("single", T.strip(ev.args[0]) if ev.args else None, T.strip(ev.param("addr")) if ev.param("addr") is not None else None)
            return None

        some = []

        def segment(seg):
            if seg.has("loop") and seg.kind != "exc":
                singles = seg.get("single")
                some.extend(singles)
                if len(singles) != 1:
                    ctx.ob("R4", func.qual, False, f"a message is handled {len(singles)} times", func.where, seg.show())
                for x in singles:
                    if x[1] is None or not T.contains(x[1], lambda t: t[0] == "iter"):
                        ctx.ob("R4", func.qual, False, "the handler isn't given the message", func.where, seg.show())
                    if x[2] is None or not is_param(x[2], "addr"):
                        ctx.ob("R4", func.qual, False, "the sender's address is lost", func.where, seg.show())
                for x in seg.get("loop"):
                    if x[1] is None or not is_param(x[1], "data"):
                        ctx.ob("R4", func.qual, False, "the received data isn't parsed", func.where, seg.show())

        tr = ctx.trace(func, label_rx, raises=quiet, restart="cut", segment=segment, cap=4, opaque=lambda it, ev: ev.func is not None and ev.func.name in ("process_single", "process"))
        for path in tr.all:
            segment(path)
        ctx.ob("R4", func.qual, bool(some), "messages never reach the handler", func.where)

    base = p.cls("runtimepy.net.stream.base.PrefixedMessageConnection")
    if base is not None:
        func = p.lookup(base, "restart")

        def label_r(e):
            if e.kind == "store" and e.ev.kind == "attr" and e.ev.base[0] == "self" and e.ev.name == "processor" and e.ev.value[0] in ("new", "call"):
                return ("fresh",)
            if e.kind == "call" and e.ev.func is not None and e.ev.func.name == "restart":
                return ("super",)
            if e.kind == "call" and e.ev.func is not None and e.ev.func.name == "init" and e.ev.recv is not None and e.ev.recv[0] == "self":
                return ("fresh",)
            return None

        tr = ctx.trace(func, label_r, base, raises=quiet, opaque=lambda it, ev: ev.func is not None and ev.func.name == "restart")
        for path in tr.ret:
            failed = any(atom[0] != "isnone" and T.contains(atom, lambda t: t[0] in ("call", "coro") and str(t[2] if t[0] == "call" else t[1]).endswith("restart")) and not pol for atom, pol in facts_of(path.st))
            if not failed and not path.has("fresh"):
                ctx.ob("R5", base.qual, False, "a restarted connection continues with a partial message", func.where, path.show())
        ctx.ob("R5", base.qual, bool(tr.ret), "restarting isn't implemented: a partial message survives it", func.where)

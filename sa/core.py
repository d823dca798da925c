"""Check framework: obligations, findings, evidence and trace extraction."""

from __future__ import annotations

import json
import os
import time
from typing import Callable, Iterable, Optional

from sa import terms as T
from sa.interp import CallEv, Frame, Interp, Monitor, State, StoreEv
from sa.model import AnalysisError, Class, Func, Program

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get("SA_ROOT", "/repo")


class Obligation:
    def __init__(self, rule, construct, ok, msg, where, path):
        self.rule = rule
        self.construct = construct
        self.ok = ok
        self.msg = msg
        self.where = where
        self.path = path

    @property
    def key(self) -> str:
        return f"{self.rule}:{self.construct}"


class Ctx:
    """Collects the obligations of one property."""

    def __init__(self, program: Program, prop: str, tier: str) -> None:
        self.p = program
        self.prop = prop
        self.tier = tier
        self.obs: list[Obligation] = []
        self.rules: dict[str, str] = {}
        self.functions: set[str] = set()
        self.notes: list[str] = []
        self.counts: dict[str, int] = {}
        self.states = 0
        self.calls = 0
        self.widened = 0
        self.truncated = 0

    @property
    def thorough(self) -> bool:
        return self.tier == "thorough"

    def rule(self, name: str, text: str) -> str:
        self.rules[name] = text
        return name

    def ob(self, rule: str, construct: str, ok, msg: str = "", where: str = "", path: Iterable = ()) -> bool:
        """Record a discharged (or failed) obligation."""
        self.obs.append(Obligation(rule, construct, bool(ok), msg, where, [str(x) for x in path]))
        return bool(ok)

    def floor(self, rule: str, what: str, count: int, least: int) -> None:
        """Guard against a rule that has silently stopped matching."""
        self.counts[f"{rule}.{what}"] = count
        self.ob(rule, f"floor/{what}", count >= least, f"expected at least {least} instance(s) of {what}, found {count}")

    def anchor_cls(self, rule: str, name: str) -> Optional[Class]:
        cls = self.p.cls(name)
        self.ob(rule, f"anchor/{name}", cls is not None, f"class {name} is gone")
        return cls

    def anchor_func(self, rule: str, name: str) -> Optional[Func]:
        func = self.p.func(name)
        if func is None:
            # Inherited methods keep the anchor alive.
            head, _, attr = name.rpartition(".")
            cls = self.p.cls(head)
            if cls is not None:
                func = self.p.lookup(cls, attr)
        self.ob(rule, f"anchor/{name}", func is not None, f"function {name} is gone")
        return func

    def trace(self, func: Func, labeler: Callable, cls: Optional[Class] = None, **opts) -> "Traces":
        """Run the engine and collect labelled event sequences."""
        if self.thorough:
            # Fewer states are joined.
            opts["max_states"] = 3 * opts.get("max_states", 260)
        mon = TraceMonitor(labeler, **opts)
        it = Interp(self.p, mon, max_states=opts.get("max_states", 260))
        out = it.run(func, cls)
        self.functions |= it.visited
        self.states += it.steps
        self.calls += it.calls_seen
        self.widened += it.widened
        self.truncated += it.truncated
        return Traces(it, out, func)

    def run_monitor(self, func: Func, mon: Monitor, cls: Optional[Class] = None, **opts):
        it = Interp(self.p, mon, max_states=opts.get("max_states", 260))
        out = it.run(func, cls)
        self.functions |= it.visited
        self.states += it.steps
        self.calls += it.calls_seen
        self.widened += it.widened
        self.truncated += it.truncated
        return it, out


    def sweep(self, labeler: Callable, funcs=None) -> None:
        """Visit the events of every function once, without inlining."""
        for func in funcs if funcs is not None else self.p.all_functions():
            mon = TraceMonitor(labeler, max_depth=1, yield_raises=False)
            it = Interp(self.p, mon, max_states=24)
            it.run(func)
            self.functions.add(func.qual)
            self.states += it.steps
            self.calls += it.calls_seen


class Event:
    """Uniform event wrapper handed to labelers."""

    __slots__ = ("kind", "it", "st", "ev", "term", "node", "frame", "extra")

    def __init__(self, kind, it, st, ev=None, term=None, node=None, frame=None, extra=None):
        self.kind = kind
        self.it: Interp = it
        self.st: State = st
        self.ev = ev
        self.term = term
        self.node = node if node is not None else (ev.node if ev is not None else None)
        self.frame: Frame = frame if frame is not None else (ev.frame if ev is not None else None)
        self.extra = extra

    @property
    def where(self) -> str:
        return f"{self.frame.module.rel}:{getattr(self.node, 'lineno', 0)}"

    # Call helpers -------------------------------------------------------
    def is_call(self, *names: str) -> bool:
        """A call of one of these (qualified or trailing) names."""
        if self.kind not in ("call", "coro"):
            return False
        return any(self.ev.name == n or self.ev.name.endswith("." + n) for n in names)

    def is_method(self, *names: str) -> bool:
        return self.kind in ("call", "coro") and self.ev.recv is not None and self.ev.attr in names

    def recv_path(self) -> str:
        return T.path(T.strip(self.ev.recv)) if self.ev.recv is not None else ""


class TraceMonitor(Monitor):
    """Collects labels; each distinct label at most `cap` times per path."""

    def __init__(self, labeler, cap: int = 2, opaque: Callable = None, raises: Callable = None, max_depth: int = 6, assert_raises: bool = True, sub_raises: bool = False, restart: str = None, segment: Callable = None, invokes: dict = None, **_):
        # A label named 'restart' ends the current segment: the segment is
        # handed to the callback and collection starts over.
        self.restart = restart
        # Library functions that call one of their arguments.
        self.invokes = invokes or {}
        self.segment = segment
        self.labeler = labeler
        self.cap = cap
        self._opaque = opaque
        self._raises = raises
        self.max_depth = max_depth
        self.assert_raises = assert_raises
        self.sub_raises = sub_raises

    def init(self):
        return ()

    def opaque(self, it, ev):
        return bool(self._opaque is not None and self._opaque(it, ev))

    def raises(self, it, ev):
        return None if self._raises is None else self._raises(it, ev)

    def _emit(self, event: Event):
        label = self.labeler(event)
        if label is None:
            return None
        st = event.st
        labels = label if isinstance(label, list) else [label]
        mon = st.mon
        trace = st.trace
        for item in labels:
            if not isinstance(item, tuple):
                item = (item,)
            if self.restart is not None and item[0] == self.restart:
                if self.segment is not None:
                    self.segment(Path("seg", st.with_(mon=mon, trace=trace)))
                mon = ()
                trace = ()
            if mon.count(item) < self.cap:
                mon = mon + (item,)
                trace = trace + ((f"{event.where}", item),)
        if mon == st.mon:
            return None
        return st.with_(mon=mon, trace=trace)

    def on_call(self, it, st, ev):
        return self._emit(Event("call", it, st, ev))

    def on_coro(self, it, st, ev):
        return self._emit(Event("coro", it, st, ev))

    def after_call(self, it, st, ev):
        return self._emit(Event("after", it, st, ev))

    def on_store(self, it, st, ev):
        return self._emit(Event("store", it, st, ev))

    def on_await(self, it, st, term, node, frame):
        return self._emit(Event("await", it, st, term=term, node=node, frame=frame))

    def on_yield(self, it, st, term, node, frame):
        return self._emit(Event("yield", it, st, term=term, node=node, frame=frame))

    def on_enter(self, it, st, term, node, frame):
        return self._emit(Event("enter", it, st, term=term, node=node, frame=frame))

    def on_exit(self, it, st, term, node, frame, kind):
        return self._emit(Event("exit", it, st, term=term, node=node, frame=frame, extra=kind))

    def on_raise(self, it, st, exc, node, frame):
        return self._emit(Event("raise", it, st, node=node, frame=frame, extra=exc))

    def on_handler(self, it, st, names, node, frame):
        return self._emit(Event("handler", it, st, node=node, frame=frame, extra=names))

    def on_loop(self, it, st, iterm, empty, node, frame):
        return self._emit(Event("loop", it, st, term=iterm, node=node, frame=frame, extra=empty))

    def on_iter_end(self, it, st, iterm, node, frame):
        return self._emit(Event("iterend", it, st, term=iterm, node=node, frame=frame))

    def on_sub(self, it, st, base, idx, node, frame):
        return self._emit(Event("sub", it, st, term=(base, idx), node=node, frame=frame))

    def on_return(self, it, st, term, node, frame):
        return self._emit(Event("return", it, st, term=term, node=node, frame=frame))


class Path:
    def __init__(self, kind: str, st: State) -> None:
        self.kind = kind  # 'ret' | 'exc'
        self.st = st
        self.labels: tuple = st.mon
        self.val = st.val[1] if st.val else None

    def names(self) -> list:
        return [x[0] for x in self.labels]

    def index(self, name: str) -> int:
        for i, x in enumerate(self.labels):
            if x[0] == name:
                return i
        return -1

    def last(self, name: str) -> int:
        for i in range(len(self.labels) - 1, -1, -1):
            if self.labels[i][0] == name:
                return i
        return -1

    def has(self, name: str) -> bool:
        return self.index(name) >= 0

    def get(self, name: str) -> list:
        return [x for x in self.labels if x[0] == name]

    def count(self, name: str) -> int:
        return len(self.get(name))

    def show(self) -> list[str]:
        lines = [f"{where}: {_show(item)}" for where, item in self.st.trace]
        lines.append(f"-> {self.kind} {T.path(self.val) if self.kind == 'ret' and self.val else sorted(self.val or [])}")
        return lines


def _show(item) -> str:
    parts = []
    for x in item:
        if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ("attr", "const", "param", "call", "self", "new", "bin", "iter", "sub", "phi", "tuple", "list", "fstr", "ext", "class", "func", "bound", "cmp", "not", "isnone", "await", "unpack", "coro", "gen"):
            parts.append(T.path(x))
        elif isinstance(x, tuple):
            parts.append("(" + _show(x) + ")")
        else:
            parts.append(str(x))
    return " ".join(parts)[:240]


class Traces:
    def __init__(self, it: Interp, out, func: Func) -> None:
        self.it = it
        self.func = func
        self.ret = [Path("ret", s) for s in out.ret]
        self.exc = [Path("exc", s) for s in out.exc]

    @property
    def all(self) -> list[Path]:
        return self.ret + self.exc


# -------------------------------------------------------------------- report
def load_findings() -> tuple[dict, list[str]]:
    known: dict[tuple[str, str], str] = {}
    fixed: list[str] = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.isfile(path):
        with open(path, encoding="utf-8") as fd:
            for line in fd:
                line = line.strip()
                if line.startswith("known: "):
                    body = line[len("known: ") :]
                    prop, key, text = body.split(" ", 2)
                    known[(prop.split("=", 1)[1], key.split("=", 1)[1])] = text
                elif line.startswith("fixed: "):
                    fixed.append(line)
    return known, fixed


def finish(ctx: Ctx, started: float, meta: dict, seed: int) -> int:
    """Report, write evidence, and compute the exit status."""
    known, _ = load_findings()
    bad: dict[str, list[Obligation]] = {}
    for ob in ctx.obs:
        if not ob.ok:
            bad.setdefault(ob.key, []).append(ob)
    new = {k: v for k, v in bad.items() if (ctx.prop, k) not in known}
    listed = {k: v for k, v in bad.items() if (ctx.prop, k) in known}
    for key in sorted(listed):
        print(f"KNOWN-FINDING: property={ctx.prop} {known[(ctx.prop, key)]}")

    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    vpath = os.path.join(evdir, f"{ctx.prop}.violations.json")
    if new:
        with open(vpath, "w", encoding="utf-8") as fd:
            json.dump(
                [
                    {"key": k, "message": o.msg, "where": o.where, "rule": ctx.rules.get(o.rule, ""), "path": o.path}
                    for k, obs in sorted(new.items())
                    for o in obs
                ],
                fd,
                indent=1,
            )
    elif os.path.exists(vpath):
        os.remove(vpath)

    uniq = sorted({(o.rule, o.construct) for o in ctx.obs})
    failed = sorted(bad)
    by_rule: dict[str, int] = {}
    for rule, _ in uniq:
        by_rule[rule] = by_rule.get(rule, 0) + 1
    total = len(uniq)
    evidence = {
        "property": ctx.prop,
        "tier": ctx.tier,
        "seed": seed,
        "level": meta["level"],
        "wall_s": round(time.time() - started, 3),
        "coverage": {
            "obligations": total,
            "discharged": total - len(failed),
            "checker_cmd": f"python3 -m sa {ctx.prop} --tier {ctx.tier}",
            "trusted_base": meta.get("trusted", TRUSTED),
            "explanation": meta["explanation"],
            "modules_parsed": len(ctx.p.modules),
            "functions_analysed": len(ctx.functions),
            "functions": sorted(ctx.functions)[:60],
            "call_sites": ctx.calls,
            "statements_stepped": ctx.states,
            "joins_widened": ctx.widened,
            "states_truncated": ctx.truncated,
            "rules": ctx.rules,
            "obligations_by_rule": by_rule,
            "instances": ctx.counts,
            "failed": failed,
            "sample_obligations": [f"{r}:{c}" for r, c in uniq][:80],
        },
    }
    if ctx.notes:
        evidence["coverage"]["notes"] = ctx.notes
    with open(os.path.join(evdir, f"{ctx.prop}.json"), "w", encoding="utf-8") as fd:
        json.dump(evidence, fd, indent=1)

    for key, obs in sorted(new.items()):
        o = obs[0]
        print(f"  {key} at {o.where}: {o.msg}")
        for line in o.path[:14]:
            print(f"      {line}")
    if new:
        print(f"VIOLATION property={ctx.prop} replay={vpath}")
        return 1
    print(f"{ctx.prop}: {total} obligation(s) discharged, {len(listed)} known finding(s).")
    return 0


TRUSTED = [
    "CPython's ast module (parsing /repo's current sources)",
    "the analyser in /verif/sa (call resolution, exception edges, joins)",
    "library contracts: asyncio, contextlib, struct, ctypes, vcorelib",
]

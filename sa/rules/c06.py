"""C06: the C interface never unwinds into its caller, never gets stuck after a failure, and releases each resource exactly once."""
from .ffi import *

RULE = ("(1) no panic point outside catch_unwind is reachable from an exported function; (2) no mutex is held at a point that may panic (it would stay poisoned and fail every later call); "
        "(3) a runtime pointer received from the caller is turned into a runtime only on paths where the registry test succeeded, is released exactly on the paths where it was removed from the registry, and is registered when it is handed out; "
        "(4) a result owns exactly one heap buffer of the announced size or none, and releasing it frees each non-null buffer once; results are not copyable")
EXPLAIN = "Panic-reachability, lock typestate and ownership dataflow from every exported C function of the runtime FFI through its helpers. All paths; no execution."
FLOORS = {"exported_functions": 15, "panic_points": 10, "result_returns": 30}
ASSUME = ["messages, error texts and receipts are shorter than 4 GiB", "formatting and dropping a panic payload does not panic", "callers pass pointers that are valid for the documented sizes", "library functions behave as documented"]


def above_len(t):
    """What is applied to a length."""
    if t[0] == "len" or t[0] == "call" and t[1].endswith("::len"):
        return []
    return [t] + [y for x in t[1:] if isinstance(x, tuple) and x for y in (above_len(x) if isinstance(x[0], str) else [z for e in x if isinstance(e, tuple) and e and isinstance(e[0], str) for z in above_len(e)])]


class NoPanic(Rule):
    """Does a function called outside catch_unwind contain a reachable panic?"""
    max_states = 20000
    max_depth = 30

    def __init__(self):
        self.at = None

    def on_panic(self, eng, st, what, site):
        self.at = self.at or where(site)


class R(FfiRule):
    def __init__(self, P):
        super().__init__(P)
        self.bad = {}
        self.n = {"panic_points": 0, "result_returns": 0, "locks": 0, "handle_uses": 0}
        self.memo = {}
        self.entry = None

    def say(self, key, text):
        self.bad.setdefault(key, text)

    def may_panic(self, body):
        if body.path not in self.memo:
            r = NoPanic()
            try:
                run(self.P, r, body)
                self.memo[body.path] = r.at
            except Budget:
                self.memo[body.path] = "somewhere inside (not bounded)"
        return self.memo[body.path]

    def ghost(self, st, **kw):
        held, freed, out = st.ghost
        st.ghost = (kw.get("held", held), kw.get("freed", freed), kw.get("out", out))

    def on_call(self, eng, st, path, targs, args, site):
        r = super().on_call(eng, st, path, targs, args, site)
        if r is not None:
            return r
        P = self.P
        last = path.split("::")[-1]
        held, freed, out = st.ghost
        b = P.bodies.get(path)
        if b is not None and b.crate != CRATE:
            if not caught(st):
                at = self.may_panic(b)
                if at:
                    self.say("unwind:" + self.entry, "%s calls %s outside catch_unwind (%s), which may panic at %s" % (self.entry, path, where(site), at))
            if held:
                self.poison(held, site, "calls " + path)
            if "::Runtime::" in path and args:
                self.handle(eng, st, eng.snap(st, args[0]), path, site)
        elif b is None and held and not path.startswith(TRUSTED + ("<",)) and last != "drop":
            self.poison(held, site, "calls " + path)
        if ("Mutex" in path and last == "lock") or ("RwLock" in path and last in ("read", "write")):
            self.n["locks"] += 1
            self.ghost(st, held=held | {(site[0].ctx, short(eng.snap(st, args[0]), 60))})
        elif last == "drop" and path.startswith("core::mem") and args:
            self.dropped(eng, st, eng.snap(st, args[0]), site)
            if targs and "Guard" in str(targs[0]):
                self.release(st, site, eng.snap(st, args[0]))
        elif last in ("leak", "into_raw", "forget") and args:
            v = eng.snap(st, args[0])
            if "remove" in member(st, v) and strip(v) != v and last != "into_raw":
                self.say("leak:" + self.entry, "%s removes a runtime from the registry but never releases it (%s)" % (self.entry, where(site)))
            else:
                self.ghost(st, out=out | {("leaked", v)})
        elif path.startswith("alloc::boxed::Box") and last == "from_raw":
            v = eng.snap(st, args[0])
            if not member(st, v):
                self.say("from_raw:" + self.entry, "%s turns the pointer %s into a box at %s without a successful registry test" % (self.entry, short(strip(v), 40), where(site)))
            self.n["handle_uses"] += 1
        elif last == "from_raw_parts" and path.startswith("alloc::vec::Vec"):
            p, n, c = (eng.snap(st, a) for a in args[:3])
            p = strip(p)
            if st.pc.get(("call", "core::ptr::is_null", (p,), None)) is None and not any(t[0] == "call" and t[1].endswith("::is_null") and strip(t[2][0]) == p and v == 0 for t, v in st.pc.items()):
                self.say("null:" + self.entry, "%s frees %s at %s without testing it for null" % (self.entry, short(p, 40), where(site)))
            if ("buf", p) in freed and p[0] != "alt":
                self.say("twice:" + self.entry, "%s frees %s twice" % (self.entry, short(p, 40)))
            if n != c:
                self.say("cap:" + self.entry, "%s frees a buffer of %s bytes as one with capacity %s" % (self.entry, short(n, 40), short(c, 40)))
            self.ghost(st, freed=freed | {("buf", p)})
        elif last == "insert" and "Set" in path and len(args) > 1:
            self.ghost(st, out=out | {("registered", strip(eng.snap(st, args[1])))})
        return None

    def handle(self, eng, st, v, path, site):
        ps = [s for s in subterms(v) if s[0] == "sym" and not s[1].startswith("static:")]
        self.n["handle_uses"] += 1
        for s in ps:
            if not member(st, s):
                self.say("handle:" + self.entry, "%s calls %s on the caller's pointer `%s` at %s without a successful registry test" % (self.entry, path.split("::")[-1], s[1], where(site)))

    def poison(self, held, site, how):
        for c, m in held:
            self.say("poison:" + m, "a panic at %s (%s) would leave the mutex %s poisoned, failing every later call" % (where(site), how, m))

    def release(self, st, site, val):
        held, freed, out = st.ghost
        mine = {h for h in held if h[0] == site[0].ctx}
        if len(mine) > 1:
            mine = {h for h in mine if h[1] == short(val, 60)} or mine
        if mine:
            self.ghost(st, held=held - mine)
        elif len(held) == 1:
            self.ghost(st, held=frozenset())

    def dropped(self, eng, st, v, site):
        if v[0] == "call" and v[1].startswith("alloc::boxed::Box") and v[1].endswith("from_raw"):
            m = member(st, v)
            if "remove" not in m and "take" not in m:
                self.say("free:" + self.entry, "%s releases the runtime at %s while it stays registered" % (self.entry, where(site)))
            held, freed, out = st.ghost
            p = strip(v)
            if ("box", p) in freed:
                self.say("twice:" + self.entry, "%s releases %s twice" % (self.entry, short(p, 40)))
            self.ghost(st, freed=freed | {("box", p)})

    def on_drop(self, eng, st, ty, val, site):
        if "Guard" in str(ty)[:120]:
            self.release(st, site, eng.snap(st, val))
        elif "Box" in str(ty)[:60]:
            self.dropped(eng, st, eng.snap(st, val), site)

    def on_panic(self, eng, st, what, site):
        self.n["panic_points"] += 1
        if any("TryFromIntError" in str(a)[:600] for a in (what[2] if len(what) > 2 else ())):
            return
        held = st.ghost[0]
        if held:
            self.poison(held, site, what[1].split("::")[-1])
        if not caught(st):
            self.say("unwind:" + self.entry, "%s can unwind into its caller: %s panics at %s outside catch_unwind" % (self.entry, what[1].split("::")[-1], where(site)))

    def on_unwind(self, eng, st):
        self.ghost(st, held=frozenset())

    def on_return(self, eng, st, val):
        P = self.P
        v = eng.snap(st, val)
        held, freed, out = st.ghost
        if v[0] == "agg" and v[1][0] == "adt" and v[1][1] == result_adt(P):
            self.n["result_returns"] += 1
            fs = [f[0] for f in P.variants(v[1][1])[0][2]]
            bufs = []
            for nm, x in zip(fs, v[3]):
                if nm in ("receipt", "error"):
                    if not (x[0] == "call" and x[1].endswith(("null_mut", "null"))):
                        bufs.append((nm, x))
            size = v[3][fs.index("buf_size")]
            if len(bufs) > 1:
                self.say("both:" + self.entry, "%s returns a result that is both a receipt and an error" % self.entry)
            for nm, x in bufs:
                owned = [s for s in subterms(x) if s[0] == "call" and s[1].split("::")[-1] in ("leak", "into_raw")]
                if not owned:
                    self.say("owned:" + self.entry, "%s returns a %s that the result does not own: %s" % (self.entry, nm, short(x, 80)))
                    continue
                src = owned[0][2][0]
                ok_ = size == ("len", src) or any(s[0] in ("len",) and mentions(src, s[1]) or s[0] == "call" and s[1].endswith("::len") and mentions(src, s[2][0]) for s in subterms(size)) \
                    or eng.length(st, src) == size or (size[0] == "k" and eng.length(st, src)[:2] == size[:2])
                ok_ = ok_ and not any(s[0] in ("cast", "trunc") and s[1] in ("u8", "i8", "u16", "i16", "bool") or s[0] == "bin" for s in above_len(size))
                if not ok_:
                    self.say("size:" + self.entry, "%s announces %s bytes for a %s of %s" % (self.entry, short(size, 60), nm, short(src, 60)))
            is_err = any(nm == "error" for nm, _ in bufs)
            removed = [t for t, x in st.pc.items() if x == 1 and t[0] == "call" and t[1].split("::")[-1] in ("remove", "take")]
            for t in removed:
                if ("box", strip(t[2][1])) not in freed:
                    self.say("leak:" + self.entry, "%s unregisters a runtime without releasing it" % self.entry)
            for c, x in st.store.items():
                if c[0] == "obj" and c[1][0] == "sym" and ("leaked", x) in out or ("leaked", x) in out and c[0] == "obj":
                    if ("registered", strip(x)) not in out:
                        self.say("unregistered:" + self.entry, "%s hands out a runtime that it did not register" % self.entry)


def check(ctx):
    P = ctx.P
    r = R(P)
    g0 = (frozenset(), frozenset(), frozenset())
    for b in exports(P):
        r.entry = b.export or b.path.split("::")[-1]
        e = run(P, r, b, g0)
        ctx.inc("exported_functions")
        ctx.inc("abstract_states", e.stats["states"])
        ctx.sample("%s: %d states" % (r.entry, e.stats["states"]))
    # releasing a result
    adt = result_adt(P)
    drop = [b for b in P.bodies.values() if b.path.startswith("<" + adt) and b.path.endswith("core::ops::drop::Drop>::drop")]
    for b in drop:
        r.entry = "releasing a result"
        freed = []

        class D(R):
            def on_return(s, eng, st, val):
                freed.append((dict(st.pc), st.ghost[1]))
        d = D(P)
        d.entry = r.entry
        e = run(P, d, b, g0)
        ctx.inc("abstract_states", e.stats["states"])
        for k, t in d.bad.items():
            r.say(k, t)
        seen = set()
        for pc, fr in freed:
            seen |= {p[2] if p[0] == "fld" and isinstance(p[2], str) else p[-1] for k, p in fr if p[0] == "fld"}
        for nm in ("receipt", "error"):
            if not any(nm in str(p) for pc, fr in freed for k, p in fr):
                r.say("leak-buf:" + nm, "releasing a result never frees its %s" % nm)
    if not drop:
        r.say("nodrop", "a result does not free its data when it is released")
    for im in P.impls.get("core::clone::Clone", []) + P.impls.get("core::marker::Copy", []):
        if im["args"] and im["args"][0] == ("adt", adt, ()):
            r.say("clone", "results can be copied, so that their data is freed twice (%s)" % im["span"])
    for k, n in r.n.items():
        ctx.inc(k, n)
    for k, t in r.bad.items():
        ctx.violation("C06:" + k, t)

"""C05: a transaction runs the named function of its target's template, on the target's storage, with the transaction's input."""
from ..eng import *
from ..codec import short
from .rt import *
from .c18 import window

RULE = ("provenance at each invocation of guest code: the module is compiled from the template that the target account names (spawn: the message's template), the function is the message's "
        "(verify: svm_verify), the environment holds the target's storage and address, and the input announced to the guest is the message's input at the offset svm_alloc returned; "
        "with an input of 0, 1, 3 and 300 unknown bytes, svm_alloc is asked for that many, each byte is in its place in memory when the function runs and nothing else was written")
EXPLAIN = "Value-provenance dataflow from Runtime::{call,verify,spawn} to each guest invocation, and from each host function to its exits. All paths; no execution."
FLOORS = {"inputs": 12, "guest_calls": 3, "entry_points": 3}
ASSUME = ["the state layer returns what is stored under the address it is given (C08, C09)", "library functions behave as documented"]

DEC = "decode_bytes"
ALOAD = "AccountStorage::load"
TLOAD = "TemplateStorage::load"


class R(RtRule):
    def __init__(self, P):
        super().__init__(P)
        self.sets = []

    def on_call(self, eng, st, path, targs, args, site):
        if path == GUEST:
            envs = []
            for v in st.store.values():
                if isinstance(v, tuple):
                    envs += aggs(v, ENV, [])
            self.envs = [eng.snap(st, a) for a in envs]
        elif path.endswith("cell::Cell::<T>::set"):
            self.sets.append((eng.snap(st, args[0]), eng.snap(st, args[1]), where(site)))
        n = len(self.guests)
        r = super().on_call(eng, st, path, targs, args, site)
        if len(self.guests) > n:
            g = self.guests[-1]
            g["envs"] = self.envs
            g["eng"] = eng
        return r


MSGS = {"svm_types::transaction::Transaction": ("calldata", "verifydata"), "svm_types::spawn_account::SpawnAccount": ("calldata",)}
OFF = 3
CELL = "cell::Cell::<T>::set"


class Input(RtRule):
    """An input of n unknown bytes and a guest memory of unknown cells; svm_alloc answers OFF. Writes to memory are collected in order."""

    def __init__(self, P, n):
        super().__init__(P)
        self.n = n
        self.size = n + 2 * OFF
        self.seen = []
        self.odd = []
        self.msgs = 0

    def opaque(self, path, body):
        return super().opaque(path, body) or path.endswith("::wasmer_register")

    def on_call(self, eng, st, path, targs, args, site):
        last = path.split("::")[-1]
        if last == "decode_bytes" and targs and targs[0] and targs[0][0] == "adt" and targs[0][1] in MSGS and "codec" in path:
            a = targs[0][1]
            fs = tuple(("agg", ("array",), None, tuple(("sym", "%s%d" % (f, i)) for i in range(self.n))) if f in MSGS[a] else ("sym", "msg." + f) for f in fields(self.P, a))
            self.msgs += 1
            return [(ok(("agg", ("adt", a), 0, fs)), st)]
        if path == GUEST:
            envs = []
            for v in st.store.values():
                if isinstance(v, tuple):
                    envs += aggs(v, INNER, [])
            envs = [eng.snap(st, a) for a in envs]
            r = super().on_call(eng, st, path, targs, args, site)
            self.seen.append((self.guests[-1], st.ghost or (), envs))
            return r
        if last == "offset" and "WasmPtr" in path and any(t[0] == "call" and t[1] == "guest" for t in subterms(eng.snap(st, args[0]))):
            return [(("k", OFF, "u32"), st)]
        if last == "view" and "Memory" in path:
            return [(("agg", ("array",), None, tuple(("sym", "cell%d" % i) for i in range(self.size))), st)]
        if last == "index" and len(args) == 2:
            w = window(eng.snap(st, args[0]), eng.snap(st, args[1]))
            if w:
                return [(w, st)]
        if path.endswith(CELL):
            st.ghost = (st.ghost or ()) + ((eng.snap(st, args[0]), eng.snap(st, args[1])),)
            return [(UNIT, st)]
        return super().on_call(eng, st, path, targs, args, site)


def inputs(ctx, P, IF):
    for ent, want in (("call", "calldata"), ("verify", "verifydata"), ("spawn", "calldata")):
        for n in (0, 1, 3) + ((300,) if ent == "call" or ctx.tier != "quick" else ()):
            r = Input(P, n)
            e = explore(P, r, ent)
            ctx.inc("abstract_states", e.stats["states"])
            if not r.msgs:
                ctx.undecided.append("Runtime::%s decodes its message in another way" % ent)
                break
            for g, ws, envs in r.seen:
                ctx.inc("inputs")
                if g["name"] == ("str", "svm_alloc"):
                    ps = g["params"][3] if g["params"][0] == "agg" and g["params"][1] == ("array",) else ()
                    k = [t[1] for p in ps for t in subterms(p) if t[0] == "k"]
                    if len(ps) == 1 and ps[0][0] in ("k", "agg") and len(k) == 1 and k[0] != n:
                        ctx.violation("C05:%s:alloc" % ent, "Runtime::%s has svm_alloc allocate %d bytes for an input of %d (at %s)" % (ent, k[0], n, g["where"]))
                    continue
                mem = {}
                for c, v in ws:
                    mem[c] = v
                cells = {("sym", "cell%d" % (OFF + i)): ("sym", "%s%d" % (want, i)) for i in range(n)}
                if any(c[0] != "sym" for c in mem) or any(v[0] not in ("sym", "k") for v in mem.values()):
                    ctx.undecided.append("Runtime::%s writes the input to memory in another form" % ent)
                elif any(mem.get(c) != v for c, v in cells.items()):
                    i, (c, v) = [(i, x) for i, x in enumerate(cells.items()) if mem.get(x[0]) != x[1]][0]
                    ctx.violation("C05:%s:copy" % ent, "Runtime::%s runs the function with %s in the place of byte %d of its input of %d bytes (guest call at %s)" % (
                        ent, short(mem[c], 40) if c in mem else "nothing", i, n, g["where"]))
                elif set(mem) - set(cells):
                    ctx.violation("C05:%s:copy" % ent, "Runtime::%s writes beyond the memory that was allocated for the input (guest call at %s)" % (ent, g["where"]))
                for x in envs:
                    cd = x[3][IF.index("calldata")]
                    v = cd[3] if cd[0] == "agg" and cd[1] == OPT else None
                    if v is None:
                        ctx.undecided.append("Runtime::%s announces the input as %s" % (ent, short(cd, 60)))
                    elif not v:
                        if n:
                            ctx.violation("C05:%s:announced" % ent, "Runtime::%s runs the function without its input of %d bytes (guest call at %s)" % (ent, n, g["where"]))
                    elif v[0][0] == "agg" and all(y[0] == "k" for y in v[0][3]) and n:
                        if [y[1] for y in v[0][3]] != [OFF, n]:
                            ctx.violation("C05:%s:announced" % ent, "Runtime::%s announces an input of %d bytes at %d as %s" % (ent, n, OFF, short(v[0], 40)))


def msg_field(t, names):
    """Is t the given field of the decoded message?"""
    x = t
    for n in reversed(names):
        if not (x[0] == "fld" and x[3] == n):
            return False
        x = x[1]
    return any(c[0] == "call" and c[1].endswith(DEC) and mentions(c, ("sym", "message")) for c in subterms(x)) and not (x[0] == "fld" and x[2] is None)


def loads(t, what):
    """Address arguments of the loads inside t."""
    return [x[2][1] for x in subterms(t) if x[0] == "call" and x[1].endswith(what) and len(x[2]) > 1]


def check(ctx):
    P = ctx.P
    EF, IF = fields(P, ENV[1]), fields(P, INNER[1])
    inputs(ctx, P, IF)
    for ent, (r, e) in guests_of(P, cls=R).items():
        ctx.inc("entry_points")
        ctx.inc("abstract_states", e.stats["states"])
        for cell, v, at in r.sets:
            ctx.inc("memory_writes")
            if not (v[0] == "item" and msg_field(v[1], ("verifydata",) if ent == "verify" else ("calldata",))):
                ctx.violation("C05:%s:bytes" % ent, "Runtime::%s writes %s to the guest's memory, not a byte of the transaction's input (at %s)" % (ent, short(v, 80), at))
        for g in r.guests:
            ctx.inc("guest_calls")
            alloc = g["name"] == ("str", "svm_alloc")

            def bad(key, text):
                ctx.violation("C05:%s:%s" % (ent, key), "Runtime::%s (guest call at %s): %s" % (ent, g["where"], text))
            # -- which account
            tr = g["trace"]
            if ent == "spawn":
                made = [(x[2][1], x[2]) for x in tr if x[0] == "state" and x[1].endswith("AccountStorage::create")]
                is_target = lambda t: any(t == a for a, _ in made)
                for a, full in made:
                    if not any(msg_field(x, ("account", "template_addr")) for x in full[2:]):
                        bad("create", "the account is created from a template other than the message's")
                if not made:
                    bad("create", "guest code runs before the account exists")
            else:
                is_target = lambda t: msg_field(t, ("target",))
            # -- which code
            code = g.get("code")
            if code is None:
                bad("code", "the function does not come from a compiled template")
            else:
                ts = loads(code, TLOAD)
                if not ts:
                    bad("code", "the code is not that of a stored template: %s" % short(code, 80))
                for a in ts:
                    acc = loads(a, ALOAD)
                    if not ((acc and all(is_target(x) for x in acc)) or (ent == "spawn" and not acc and msg_field(a, ("account", "template_addr")))):
                        bad("code", "the code run is that of template %s, not of the target account" % short(a, 100))
            if alloc and any(x[0] in ("cast", "trunc") and x[1] in ("u8", "i8", "u16", "i16") for x in subterms(g["params"])):
                bad("alloc", "the memory to allocate for the input is %s" % short(g["params"], 80))
            # -- which function
            if not alloc:
                nm = g["name"]
                good = nm is not None and (nm == ("str", "svm_verify") if ent == "verify" else msg_field(nm, ("func_name",) if ent == "call" else ("ctor_name",)))
                if not good:
                    bad("name", "the function run is %s" % short(nm or UNIT, 80))
            # -- which storage
            if not g["envs"]:
                bad("env", "no environment is set up for the guest")
            for env in g["envs"]:
                if not is_target(env[3][EF.index("target_addr")]):
                    bad("env", "the environment's target address is %s" % short(env[3][EF.index("target_addr")], 80))
                for inner in aggs(env, INNER, []):
                    s = inner[3][IF.index("storage")]
                    if s[0] == "call" and s[1] == "guest:storage":
                        pass
                    else:
                        acc = loads(s, ALOAD) + [x[2][1] for x in subterms(s) if x[0] == "call" and x[1].endswith("AccountStorage::create")]
                        if not acc or not all(is_target(x) for x in acc):
                            bad("storage", "the guest works on storage %s, not on the target's" % short(s, 100))
                    if alloc or ent == "none":
                        continue
                    # -- which input
                    want = ("verifydata",) if ent == "verify" else ("calldata",)
                    cd = inner[3][IF.index("calldata")]
                    ran = [x for x in tr if x[0] == "guest" and x[1] == ("str", "svm_alloc")]
                    if ran:
                        ok_ = False
                        if cd[0] == "agg" and cd[1] == OPT and cd[2] == 1:
                            off, n = cd[3][0][3]
                            ok_ = any(x[0] == "call" and x[1] == "guest" for x in subterms(off)) and \
                                any(x[0] == "len" and msg_field(x[1], want) for x in subterms(n)) and not any(x[0] == "bin" for x in subterms(n)) and \
                                not any(x[0] == "bin" for x in subterms(off)) and \
                                not any(x[0] in ("cast", "trunc") and x[1] in ("u8", "i8", "u16", "i16") for x in (*subterms(off), *subterms(n)))
                        if not ok_:
                            bad("input", "the input announced to the guest is %s" % short(cd, 120))
                    else:
                        empty = [t for t, v in g["pc"].items() if any(x[0] == "len" and msg_field(x[1], want) for x in subterms(t))
                                 or t[0] == "call" and t[1].endswith("is_empty") and msg_field(t[2][0], want)]
                        if not empty and cd[0] != "phi":
                            bad("input", "the function runs without its input although the input may be non-empty")
            ctx.sample("Runtime::%s: %s of the target's template, on the target's storage" % (ent, short(g["name"] or UNIT, 60)))

"""C16: what template validation accepts."""
from ..eng import *
from ..codec import short
from .rt import RtRule, explore
from .c15 import facts, plus, lin

RULE = ("Program::new (with export validation) returns Ok only on paths where every function body of the module was added under its index, a visitor that rejects every float instruction succeeded on the program, "
        "every exported svm_alloc / svm_verify was checked against its signature and both were seen, and functions plus imports were found not to exceed u16::MAX; the visitor driver hands every instruction of every function, in order, to the visitor and "
        "propagates each error; the fixed-gas visitor rejects loop, call_indirect and self calls and records every other local call as an edge from the current function; it accepts only when the cycle search found none; "
        "the search removes only edges leaving nodes without incoming edges and reports success only when no edge remains; Runtime::validate_deploy succeeds only when both validations did")
EXPLAIN = ("Path-sensitive dataflow over the bodies of svm_program and svm_gas with a ghost automaton for traversals; the opcode decision is compared, variant by variant, with the float instructions of the instruction enum of the pinned parity-wasm. All paths; no execution.")
FLOORS = {"float_opcodes": 60, "accepting_paths": 1, "visits": 1, "visitor_callbacks": 5, "export_checks": 2, "call_edges": 1, "graph_facts": 8, "deploy_gates": 2}
ASSUME = ["parity-wasm decodes modules as documented", "library functions behave as documented", "IndexMap keys and get agree"]

VIS = "svm_program::visitor::ProgramVisitor::"
INS = "parity_wasm::elements::ops::Instruction"
PN = "svm_program::program::Program::new"


def callee(t):
    return t[1].split("::")[-1] if t[0] == "call" else None


def is_ok(v):
    return v[0] == "agg" and v[1] == RES and v[2] == 0


def is_err(v):
    return v[0] == "agg" and v[1] == RES and v[2] == 1


def called(body):
    for bl in body.blocks:
        t = bl[1]
        if t[0] == "call" and t[1][0] == "k" and t[1][1][0] in ("fn", "closure"):
            yield t[1][1][1]


def lossy(src):
    """A loop source that leaves elements out: the adaptor's name."""
    for t in subterms(src):
        if t[0] in ("skip", "slice"):
            return "skip" if t[0] == "skip" else "a slice"
        if callee(t) in ("skip", "take", "step_by", "skip_while", "take_while", "split_at", "chunks_exact"):
            return callee(t)
    return None


def const_names(P, v, out=None):
    """Names of enum variants built inside a value."""
    out = set() if out is None else out
    for t in subterms(v):
        if t[0] == "agg" and t[1][0] == "adt" and t[2] is not None:
            vs = P.variants(t[1][1])
            if vs and t[2] < len(vs):
                out.add(vs[t[2]][0])
    return out


# ---------------------------------------------------------------- the traversal driver
class Visit(Rule):
    max_states = 20000

    def __init__(self, P, bad, n):
        self.P, self.bad, self.n = P, bad, n
        self.iters = set()

    def say(self, k, t):
        self.bad.setdefault(k, t)

    def outer(self, src):
        return not any(x[0] in ("item", "fn-item") for x in subterms(src)) and not any(x[0] == "sym" and x[1] == "fn" for x in subterms(src))

    def on_more(self, eng, st, src, val, site):
        g = st.ghost
        if self.outer(src):
            if not any(x == ("fld", ("sym", "program"), None, "functions") for x in subterms(src)):
                return True
            cut = lossy(src)
            if cut:
                self.say("cut", "ProgramVisitor::visit goes over a part of the functions only (%s at %s)" % (cut, where(site)))
            if val:
                if g[0] not in ("start", "ended"):
                    self.say("visit", "ProgramVisitor::visit goes on to the next function at %s although the current one is not finished (%s)" % (where(site), g[0]))
                st.ghost = ("fn", None)
            else:
                if g[0] not in ("start", "ended"):
                    self.say("visit", "ProgramVisitor::visit leaves the functions at %s although one is not finished (%s)" % (where(site), g[0]))
                st.ghost = ("exhausted", None)
        else:
            self.ops(st, val, site)
        return True

    def ops(self, st, val, site):
        g = st.ghost
        if g[1] == "pending":
            self.say("op", "ProgramVisitor::visit passes over an instruction at %s without handing it to on_op" % where(site))
        if val:
            if g[0] != "started":
                self.say("start", "ProgramVisitor::visit reads the instructions of a function at %s before on_func_start" % where(site))
            st.ghost = (g[0], "pending")
        else:
            st.ghost = ("opsdone", None)

    def on_call(self, eng, st, path, targs, args, site):
        if path.startswith(VIS + "on_"):
            m = path[len(VIS):]
            self.n[m] = self.n.get(m, 0) + 1
            g = st.ghost
            a = [eng.snap(st, x) for x in args]
            if m == "on_func_start":
                if g[0] != "fn":
                    self.say("visit", "on_func_start is called at %s outside a function" % where(site))
                st.ghost = ("started", None)
            elif m == "on_op":
                if g[1] != "pending":
                    self.say("op", "on_op is called at %s without a new instruction" % where(site))
                st.ghost = (g[0], None)
            elif m == "on_func_end":
                if g[0] != "opsdone":
                    self.say("op", "on_func_end is called at %s before all instructions were visited" % where(site))
                st.ghost = ("ended", None)
            elif m == "on_end":
                if g[0] != "exhausted":
                    self.say("visit", "on_end is called at %s before all functions were visited" % where(site))
                st.ghost = ("end", None)
            r = ("call", path, tuple(a[1:2]) if m != "on_end" else (), (site[0].ctx, site[0].bb))
            if m == "on_end":
                return [(r, st)]
            s = st.copy()
            s.ghost = ("failed", m)
            return [(ok(UNIT), st), (err(("fld", r, "Err", "0")), s)]
        if path.endswith("Iterator>::next") and path.startswith("<svm_program::") or path == "svm_program::function::iter::next":
            self.iters.add(path)
            s1, s2 = st.copy(), st.copy()
            self.ops(s1, True, site)
            self.ops(s2, False, site)
            return [(some(("sym", "op")), s1), (NONE, s2)]
        if path.endswith("FuncIterator::<'f>::new"):
            return [(("sym", "fn"), st)]
        return None

    def on_return(self, eng, st, val):
        v = eng.snap(st, val)
        g = st.ghost
        self.n["returns"] = self.n.get("returns", 0) + 1
        if g[0] == "failed":
            if not (is_err(v) and any(callee(t) == g[1] for t in subterms(v))):
                self.say("err", "ProgramVisitor::visit returns %s although %s failed" % (short(v, 40), g[1]))
        elif g[0] != "end":
            if not is_err(v):
                self.say("end", "ProgramVisitor::visit returns %s before visiting everything" % short(v, 40))


def visitor(ctx, P):
    bad, n = {}, {}
    r = Visit(P, bad, n)
    b = P.bodies.get(VIS + "visit")
    if b is None:
        ctx.undecided.append("no traversal driver")
        return
    e = Engine(P, r)
    e.run(b, (("param", 0, "Self"),), [("sym", "visitor"), ("sym", "program")], ghost=("start", None))
    ctx.inc("abstract_states", e.stats["states"])
    for m in ("on_start", "on_func_start", "on_op", "on_func_end", "on_end"):
        if n.get(m):
            ctx.inc("visitor_callbacks")
        else:
            bad.setdefault("never:" + m, "ProgramVisitor::visit never calls %s" % m)
    for k, t in bad.items():
        ctx.violation("C16:visit:" + k, t)
    # an overridden driver would escape this
    for im in P.impls.get("svm_program::visitor::ProgramVisitor", ()):
        if "visit" in im["items"]:
            ctx.undecided.append("%s overrides the traversal" % im["span"])
    for p in r.iters:
        iterator(ctx, P, p)


class Coll(Rule):
    def __init__(self):
        self.rets = []
        self.panics = []

    def on_return(self, eng, st, val):
        self.rets.append((eng.snap(st, val), dict(st.pc), {c: eng.snap(st, v) for c, v in st.store.items() if c[0] == "obj"}))

    def on_panic(self, eng, st, what, site):
        self.panics.append((what, where(site), dict(st.pc)))


def iterator(ctx, P, path):
    """next() yields code[offset] and advances by one while offset < length; new() starts at 0 with the whole length."""
    b = P.bodies.get(path)
    nb = P.bodies.get("svm_program::function::iter::FuncIterator::<'f>::new")
    adt = P.adts.get("svm_program::function::iter::FuncIterator")
    if b is None or nb is None or adt is None:
        ctx.undecided.append("the instruction iterator has another form")
        return
    names = [f[0] for f in adt["variants"][0][2]]
    if set(names) != {"offset", "length", "code"}:
        ctx.undecided.append("the instruction iterator has other fields: %s" % names)
        return
    r = Coll()
    e = Engine(P, r)
    e.run(nb, (None,), [("sym", "func")])
    for v, pc, _ in r.rets:
        f = dict(zip(names, v[3]))
        code = f["code"]
        ctx.inc("iterator_facts")
        if f["offset"] != ("k", 0, "usize"):
            ctx.violation("C16:iter:start", "the instruction iterator starts at %s" % short(f["offset"], 30))
        if f["length"] != ("len", code) and lin(f["length"]) != {("len", code): 1}:
            ctx.violation("C16:iter:len", "the instruction iterator of a function stops after %s of its instructions" % short(f["length"], 40))
    r = Coll()
    e = Engine(P, r)
    S = ("obj", "it")
    e.run(b, (None,), [("ref", S, ())], store={S: ("agg", ("adt", "svm_program::function::iter::FuncIterator"), 0, tuple(("sym", n) for n in names))})
    off, ln, code = ("sym", "offset"), ("sym", "length"), ("sym", "code")
    for v, pc, stx in r.rets:
        fs = facts(pc)
        ctx.inc("iterator_facts")
        if v == NONE:
            gn = [t for t, x in pc.items() if t[0] == "discr" and callee(t[1]) == "get" and x == 0 and t[1][2][0] == code and lin(t[1][2][1]) == {off: 1}]
            if not gn and not any(f == {off: 1, ln: -1} or f == {off: 1, ln: -1, None: -1} for f in fs):
                ctx.violation("C16:iter:none", "the instruction iterator may end before the last instruction")
            continue
        it = stx.get(S)
        noff = it[3][names.index("offset")] if it and it[0] == "agg" else None
        if noff is None:
            ctx.undecided.append("state of the instruction iterator unknown")
            continue
        if lin(noff) != {off: 1, None: 1}:
            ctx.violation("C16:iter:step", "the instruction iterator moves from offset to %s" % short(noff, 40))
        raw = [t for t in subterms(v) if t[0] == "idx" and t[1] == code] or [("idx", code, t[2][1]) for t in subterms(v) if callee(t) == "get" and len(t[2]) == 2 and t[2][0] == code]
        if not raw or any(lin(t[2]) != {off: 1} for t in raw):
            ctx.violation("C16:iter:item", "the instruction iterator yields %s, not the instruction at its offset" % short(v, 60))


# ---------------------------------------------------------------- opcode decisions
def decide(P, body, targs, args, store=None, opaque=()):
    """[(result, variants of the instruction on the path, pc, events)]"""
    class D(Rule):
        def __init__(s):
            s.out = []
            s.panics = []

        def opaque(s, path, b):
            return path.startswith(opaque) if opaque else False

        def on_call(s, eng, st, path, targs, args, site):
            if opaque and path.startswith(opaque):
                st.event("call", path, tuple(eng.snap(st, a) for a in args), where(site))
            return None

        def on_return(s, eng, st, val):
            s.out.append((eng.snap(st, val), dict(st.pc), st.events(), {c: eng.snap(st, v) for c, v in st.store.items() if c[0] == "obj"}))

        def on_panic(s, eng, st, what, site):
            s.panics.append((what, where(site), dict(st.pc)))
    r = D()
    e = Engine(P, r)
    e.run(body, targs, args, store=store)
    return r, e


def variants_of(pc, raw, n):
    al = set(range(n))
    for t, v in pc.items():
        if t[0] == "discr" and t[1] in raw:
            al &= (al - v) if isinstance(v, frozenset) else {v}
        elif t[0] == "call" and callee(t) in ("eq", "ne") or t[0] == "bin" and t[1] in ("Eq", "Ne"):
            pass
    return al


OP = ("agg", ("adt", "svm_program::op::Op"), 0, (("sym", "raw"), ("sym", "op.offset")))
RAW = (("sym", "raw"), ("fld", ("sym", "op"), None, "raw"))


def floats(ctx, P, selfty, selfv):
    """Does this visitor reject exactly the float instructions?  None: it isn't concerned with them."""
    body, targs, rp = P.resolve(VIS + "on_op", (selfty,))
    if body is None:
        return None
    ins = P.fenums.get(INS)
    if not ins:
        ctx.undecided.append("the instruction enum is unknown")
        return None
    S, O = ("obj", "self"), ("obj", "op")
    r, e = decide(P, body, targs, [("ref", S, ()), ("ref", O, ()), ("sym", "program")], {S: selfv, O: OP})
    fl = {i for i, v in enumerate(ins) if "F32" in v[0] or "F64" in v[0]}
    if not any("FloatsNotAllowed" in const_names(P, v) for v, _, _, _ in r.out):
        return None
    okv, errv = set(), set()
    for v, pc, ev, _ in r.out:
        al = variants_of(pc, RAW, len(ins))
        if is_ok(v):
            okv |= al
        elif is_err(v):
            errv |= al
        else:
            ctx.undecided.append("opcode decision of unknown form: " + short(v, 60))
            return None
    ctx.inc("float_opcodes", len(fl))
    ctx.inc("opcodes", len(ins))
    for i in sorted(okv & fl):
        ctx.violation("C16:float:" + ins[i][0], "the float instruction %s is accepted by %s" % (ins[i][0], rp))
    for i in sorted(errv - fl):
        ctx.violation("C16:nofloat:" + ins[i][0], "the instruction %s, which has nothing to do with floats, is rejected as one by %s" % (ins[i][0], rp))
    return True


# ---------------------------------------------------------------- Program::new
class New(Rule):
    max_states = 30000
    OPQ = ("svm_program::import::Imports::read", "svm_program::exports::Exports::read")

    def __init__(self, P, exports):
        self.P = P
        self.exports = exports
        self.visits = {}
        self.oks = []
        self.bad = {}
        self.panics = []

    def opaque(self, path, body):
        return path in self.OPQ or path == VIS + "visit" or path == self.exports

    def bodies(self, src):
        return any(callee(x) == "bodies" for x in subterms(src)) and src[0] in ("call", "count", "skip", "slice")

    def on_more(self, eng, st, src, val, site):
        if self.bodies(src):
            g = st.ghost
            if lossy(src):
                self.bad.setdefault("cut", "Program::new goes over a part of the function bodies only (%s at %s)" % (lossy(src), where(site)))
            if g[0] == "pending":
                self.bad.setdefault("body", "Program::new passes over a function body at %s without adding it to the program" % where(site))
            st.ghost = (("pending" if val else "all"),) + g[1:]
        return True

    def on_call(self, eng, st, path, targs, args, site):
        if path == VIS + "visit":
            a = [eng.snap(st, x) for x in args]
            self.visits[a[0]] = targs
            if st.ghost[0] != "all":
                self.bad.setdefault("early", "the program is validated at %s before all of its functions were added" % where(site))
            r = ("call", VIS + "visit", (a[0],), (site[0].ctx, site[0].bb))
            s = st.copy()
            return [(ok(("fld", r, "Ok", "0")), self.mark(st, a[0])), (err(("fld", r, "Err", "0")), s)]
        if path == self.exports:
            s = st.copy()
            r = ("call", path, (), (site[0].ctx, site[0].bb))
            return [(ok(UNIT), self.mark(st, "exports")), (err(("fld", r, "Err", "0")), s)]
        if path.endswith("::insert") and "IndexMap" in path and len(args) == 3:
            k, v = eng.snap(st, args[1]), eng.snap(st, args[2])
            el = [t for t in subterms(v) if t[0] == "item" and self.bodies(t[1])]
            if el:
                if callee(v) != "elements":
                    self.bad.setdefault("ops", "the instructions stored for a function at %s are %s, not all of its body" % (where(site), short(v, 60)))
                kk = k[3][0] if k[0] == "agg" and k[3] else k
                while kk[0] in ("trunc", "cast"):
                    kk = kk[2]
                f = lin(kk)
                ctrs = [x for x in f if x is not None and x[0] == "ctr"]
                if ctrs and (f.get(None, 0) or any(c != 1 for c in f.values()) or not any(x is not None and x[0] != "ctr" for x in f) and not any(t[0] == "discr" and callee(t[1]) in ("import_section",) for t in st.pc)):
                    self.bad.setdefault("index", "a function is stored under index %s, not its position after the imported functions" % short(kk, 60))
                st.ghost = ("added",) + st.ghost[1:]
        return None

    def mark(self, st, x):
        st.ghost = (st.ghost[0], st.ghost[1] | {x})
        return st

    def on_return(self, eng, st, val):
        v = eng.snap(st, val)
        if not is_err(v):
            self.oks.append((st.ghost, dict(st.pc), v))

    def on_panic(self, eng, st, what, site):
        self.panics.append((what, where(site)))


def constructs(P, name):
    """Workspace functions that build a ProgramError variant by that name."""
    out = set()
    for p, b in P.bodies.items():
        if p.startswith(("svm_program", "<svm_program")):
            for bl in b.blocks:
                for s in bl[0]:
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][3] == name:
                        out.add(p)
    return out


def program_new(ctx, P):
    b = P.bodies.get(PN)
    exps = "svm_program::program::module_validate_exports"
    r = New(P, exps)
    e = Engine(P, r)
    try:
        e.run(b, (), [("sym", "wasm"), TRUE], ghost=("none", frozenset()))
    except Budget as x:
        ctx.undecided.append("Program::new: %s" % x)
        return
    ctx.inc("abstract_states", e.stats["states"])
    ctx.inc("accepting_paths", len(r.oks))
    for k, t in r.bad.items():
        ctx.violation("C16:new:" + k, t)
    conc = {}
    for sv, targs in r.visits.items():
        ctx.inc("visits")
        conc[sv] = floats(ctx, P, targs[0], sv)
    fl = [sv for sv, x in conc.items() if x]
    other = not fl and bool(constructs(P, "FloatsNotAllowed") - {"svm_program::validate_opcode"} - {p for p in P.bodies if "Clone" in p})
    for g, pc, v in r.oks:
        if not any(sv in g[1] for sv in fl):
            if other:
                ctx.undecided.append("floats are rejected in a way this analysis doesn't follow")
            else:
                ctx.violation("C16:new:float", "Program::new accepts a program on a path where no visitor that rejects floats succeeded")
        if exps in P.bodies and "exports" not in g[1]:
            ctx.violation("C16:new:exports", "Program::new accepts a program, told to validate exports, on a path where they were not validated")
        # functions and imports together
        lims = [f for f in facts(pc) if 0 < f.get(None, 0) and any(x is not None and c < 0 for x, c in f.items())
                and any(x is not None and (any(callee(t) in ("visit", "bodies", "keys") or t[0] == "fld" and t[3] == "functions" for t in subterms(x))) for x in f)]
        if not lims:
            ctx.violation("C16:new:count", "Program::new accepts a program without bounding its number of functions")
        for f in lims:
            ctx.inc("count_bounds")
            if f[None] > 65535:
                ctx.violation("C16:new:count", "Program::new accepts up to %d functions" % f[None])
            imps = any(x is not None and any(callee(t) in ("read", "import_count", "import_section") or t[0] == "fld" and t[3] == "imports" for t in subterms(x)) and not any(callee(t) == "visit" for t in subterms(x)) for x in f)
            noimp = any(t[0] == "discr" and callee(t[1]) == "import_section" and x == 0 for t, x in pc.items())
            if not imps and not noimp:
                ctx.violation("C16:new:imported", "Program::new bounds the number of defined functions (%s) without counting the imported ones" % short(tuple(k for k in f if k)[0], 60))
    for g, pc, v in r.oks[:2]:
        ctx.sample("Program::new accepts after %s" % ", ".join(sorted(short(x, 40) if x != "exports" else x for x in g[1])))
    # counting visitor
    for sv, targs in r.visits.items():
        if conc[sv]:
            continue
        counter(ctx, P, targs[0], sv)


def counter(ctx, P, selfty, selfv):
    """A visitor used to count functions: one per function, starting at 0."""
    if selfty[0] != "adt" or selfv[0] != "agg" or len(selfv[3]) != 1:
        ctx.undecided.append("function counter of unknown form")
        return
    if selfv[3][0][0] == "k" and selfv[3][0][1] != 0:
        ctx.violation("C16:count:start", "counting the functions starts at %d" % selfv[3][0][1])
    S = ("obj", "self")
    tot = 0
    for m in ("on_start", "on_func_start", "on_op", "on_func_end"):
        body, targs, rp = P.resolve(VIS + m, (selfty,))
        if body is None or not rp.startswith("<"):
            continue
        args = [("ref", S, ())] + [("sym", "a%d" % i) for i in range(body.argc - 1)]
        r, e = decide(P, body, targs, args, {S: ("agg", selfv[1], selfv[2], (("sym", "n"),))})
        ds = []
        for v, pc, ev, st in r.out:
            n = st[S][3][0]
            while n[0] == "fld" and n[2] == "Some" and callee(n[1]) in ("checked_add", "overflowing_add"):
                n = ("bin", "Add", n[1][2][0], n[1][2][1])
            d = plus(lin(n), {("sym", "n"): 1}, -1)
            if is_err(v):
                continue
            ctx.inc("count_steps")
            ds.append((d, n))
        if ds and m in ("on_func_start", "on_func_end") and all(d == {None: 1} for d, n in ds):
            tot += 1
        elif any(d for d, n in ds):
            ctx.violation("C16:count:step", "counting the functions: %s changes the count to %s" % (m, short([n for d, n in ds if d][0], 40)))
    if tot != 1:
        ctx.violation("C16:count:step", "counting the functions adds %d per function" % tot)


# ---------------------------------------------------------------- exports
SIGS = {"svm_alloc": (("I32",), ("I32",)), "svm_verify": ((), ("I32",))}


class Exports(Rule):
    max_states = 30000

    def __init__(self, P):
        self.P = P
        self.bad = {}
        self.n = 0
        self.und = set()
        self.panics = {}

    def settle(self, st, site):
        nm, seen, done = st.ghost
        if nm is None:
            return
        self.n += 1
        got = {x[0]: x[1] for x in seen if x[0] in ("params", "results")}
        kind = [x[1] for x in seen if x[0] == "kind"]
        look = {x[1] for x in seen if x[0] == "look"}
        if kind != [0] and not look:
            self.bad.setdefault("kind:" + nm, "an export named %s which is no function is accepted at %s" % (nm, where(site)))
        elif not look:
            self.bad.setdefault("sig:" + nm, "an export named %s is accepted at %s without looking at its signature" % (nm, where(site)))
        elif look != {"params", "results"}:
            self.bad.setdefault("sig:" + nm, "an export named %s is accepted at %s with only its %s checked" % (nm, where(site), look.pop()))
        elif set(got) != look:
            self.und.add("signature check of %s in another form" % nm)
        elif (got["params"], got["results"]) != SIGS[nm]:
            self.bad.setdefault("sig:" + nm, "an export named %s is accepted with signature %s -> %s" % (nm, list(got["params"]), list(got["results"])))
        st.ghost = (None, frozenset(), done | {nm})

    def vt(self, x):
        vs = self.P.fenums.get("parity_wasm::elements::types::ValueType")
        return vs[x[2]][0] if vs and x[0] == "agg" and x[2] is not None else "?"

    def on_more(self, eng, st, src, val, site):
        self.settle(st, site)
        return True

    def on_branch(self, eng, st, term, val, site):
        nm, seen, done = st.ghost
        eq = term[0] == "bin" and term[1] in ("Eq", "Ne") and val == (1 if term[1] == "Eq" else 0)
        for a, b in ((term[2], term[3]), (term[3], term[2])) if eq else ():
            if b[0] == "str" and b[1] in SIGS and any(callee(x) == "field" for x in subterms(a)):
                self.settle(st, site)
                st.ghost = (b[1], frozenset(), st.ghost[2])
                return True
        if nm is not None:
            add = set()
            for a, b in ((term[2], term[3]), (term[3], term[2])) if eq else ():
                if callee(a) in ("params", "results") and b[0] == "agg" and b[1][0] == "array":
                    add.add((callee(a), tuple(self.vt(x) for x in b[3])))
            if term[0] == "discr" and callee(term[1]) == "internal":
                add.add(("kind", val))
            for x in subterms(term):
                if callee(x) in ("params", "results"):
                    add.add(("look", callee(x)))
                    self.chain(x, nm, site)
            st.ghost = (nm, seen | add, done)
        return True

    def chain(self, x, nm, site):
        """The signature is that of the exported function: types[type_ref(functions[index - imported functions])]."""
        idx = [t[2] if t[0] == "idx" else t[2][1] for t in subterms(x) if t[0] == "idx" or callee(t) == "get" and len(t[2]) == 2]
        for i in idx:
            if callee(i) == "type_ref":
                continue
            f = lin(i)
            own = [k for k in f if k is not None and k[0] == "fld" and callee(k[1]) == "internal"]
            cnt = [k for k in f if k is not None and callee(k) == "import_count"]
            if own and len(own) + len(cnt) + (None in f) == len(f):
                if not (f[own[0]] == 1 and len(cnt) == 1 and f[cnt[0]] == -1 and f.get(None, 0) == 0):
                    self.bad.setdefault("chain:" + nm, "the signature checked for %s at %s is that of function %s, not of the exported one" % (nm, where(site), short(i, 60)))
                    continue
                k = cnt[0][2][-1]
                vs = self.P.fenums.get("parity_wasm::elements::module::ImportCountType")
                if vs and k[0] == "agg" and k[2] is not None and vs[k[2]][0] != "Function":
                    self.bad.setdefault("chain:" + nm, "the signature checked for %s at %s is found by counting %s imports, not those of functions" % (nm, where(site), vs[k[2]][0]))
            if own and not any(callee(t) == "type_ref" for t in subterms(x)):
                self.bad.setdefault("chain:" + nm, "the signature checked for %s at %s is not that which the function refers to" % (nm, where(site)))

    def on_return(self, eng, st, val):
        v = eng.snap(st, val)
        if is_err(v):
            return
        self.settle(st, (st.frames[0], "return"))
        for nm in SIGS:
            if nm not in st.ghost[2]:
                self.bad.setdefault("missing:" + nm, "a module without an export named %s is accepted" % nm)

    def on_panic(self, eng, st, what, site):
        if what[0] == "assert" and what[1] in ("bounds", "overflow"):
            self.panics.setdefault(where(site), what)
        elif what[0] == "call":
            self.panics.setdefault(where(site), what)


def exports(ctx, P):
    b = P.bodies.get("svm_program::program::module_validate_exports")
    if b is None:
        ctx.undecided.append("exports are validated in another form")
        return
    r = Exports(P)
    e = Engine(P, r)
    try:
        e.run(b, (), [("sym", "module")], ghost=(None, frozenset(), frozenset()))
    except Budget as x:
        ctx.undecided.append("exports: %s" % x)
        return
    ctx.inc("abstract_states", e.stats["states"])
    ctx.inc("export_checks", r.n)
    for k, t in r.bad.items():
        ctx.violation("C16:export:" + k, t)
    for u in r.und:
        ctx.undecided.append(u)
    for w, what in r.panics.items():
        if what[0] == "assert" and what[1] == "bounds":
            t = "an index read from the module is used unchecked"
        elif what[0] == "assert":
            t = "a number read from the module overflows (%s)" % what[2][0]
        elif what[1].endswith("panicking::panic"):
            t = "panics on some modules (%s)" % short(what[2], 60)
        else:
            continue
        ctx.violation("C16:panic:" + w.split(" ")[0].split("::")[-1] + ":" + what[0] + str(what[1])[:8], "validating the exports of a malformed module: %s at %s" % (t, w))


# ---------------------------------------------------------------- fixed gas
def gas(ctx, P):
    V = "svm_gas::validation::validate_wasm"
    b = P.bodies.get(V)
    if b is None:
        ctx.undecided.append("no validate_wasm")
        return
    ins = P.fenums.get(INS)
    idx = {v[0]: i for i, v in enumerate(ins)}
    r, e = decide(P, b, (), [("sym", "program"), ("sym", "rc")], opaque=(VIS,))
    self_ = None
    for v, pc, ev, _ in r.out:
        calls = [x for x in ev if x[0] == "call"]
        if is_err(v):
            continue
        if callee(v) != "visit" and not (is_ok(v) and any(t[0] == "discr" and callee(t[1]) == "visit" and x == 0 for t, x in pc.items())):
            ctx.violation("C16:gas:skip", "validate_wasm returns %s without the outcome of the traversal" % short(v, 40))
        for c in calls:
            if c[1] == VIS + "visit":
                self_ = c[2][0]
                ctx.inc("visits")
                if c[2][1] != ("sym", "program"):
                    ctx.violation("C16:gas:other", "validate_wasm visits another program")
    if self_ is None or self_[0] != "agg":
        ctx.undecided.append("the fixed-gas visitor is of unknown form")
        return
    ty = ("adt", self_[1][1], ())
    adt = P.adts[self_[1][1]]
    names = [f[0] for f in adt["variants"][0][2]]
    S, O = ("obj", "self"), ("obj", "op")
    sv = ("agg", self_[1], 0, tuple(("sym", "v." + n) for n in names))
    OPQ = ("svm_gas::call_graph::", "svm_gas::graph::")
    # which field holds the current function?
    body, targs, rp = P.resolve(VIS + "on_func_start", (ty,))
    cur = None
    if body is not None:
        r, e = decide(P, body, targs, [("ref", S, ()), ("sym", "index"), ("sym", "program")], {S: sv}, OPQ)
        for v, pc, ev, st in r.out:
            w = [names[i] for i, x in enumerate(st[S][3]) if ("sym", "index") in set(subterms(x)) and not any(t[0] == "mut" for t in subterms(x))]
            cur = w[0] if len(w) == 1 else None
    if cur is None:
        ctx.violation("C16:gas:current", "%s doesn't note the function it is about to visit" % rp)
        return
    # on_op
    body, targs, rp = P.resolve(VIS + "on_op", (ty,))
    sv2 = ("agg", self_[1], 0, tuple(some(("sym", "current")) if n == cur else ("sym", "v." + n) for n in names))
    r, e = decide(P, body, targs, [("ref", S, ()), ("ref", O, ()), ("sym", "program")], {S: sv2, O: OP}, OPQ)
    accepted = set()
    for v, pc, ev, st in r.out:
        al = variants_of(pc, RAW, len(ins))
        if is_err(v):
            n = const_names(P, v)
            lost = al - {idx["Loop"], idx["CallIndirect"], idx["Call"]}
            for i in sorted(lost):
                ctx.violation("C16:gas:reject:" + ins[i][0], "the fixed-gas visitor rejects %s" % ins[i][0])
            continue
        if not is_ok(v):
            ctx.undecided.append("fixed-gas decision of unknown form: " + short(v, 60))
            continue
        accepted |= al
        if idx["Call"] in al:
            ctx.inc("call_edges")
            tgt = ("fld", ("sym", "raw"), "Call", "0")
            def imports(x):
                return x is not None and any(y[0] == "fld" and y[3] == "imports" for y in subterms(x))
            if any(f.get(tgt, 0) == -1 and f.get(None, 0) <= -1 and sum(1 for x in f if imports(x) and f[x] == 1) == 1 and len(f) == 3 for f in facts(pc)):
                ctx.inc("imported_calls")
                continue
            adds = [x for x in ev if x[0] == "call" and x[1].endswith(("::add_call", "::add_edge"))]
            good = [x for x in adds if len(x[2]) == 3 and ("sym", "current") in set(subterms(x[2][1])) and tgt in set(subterms(x[2][2]))]
            if not good:
                if adds:
                    ctx.violation("C16:gas:edge", "the fixed-gas visitor records the call as %s -> %s" % (short(adds[0][2][1], 30), short(adds[0][2][2], 30)))
                else:
                    ctx.violation("C16:gas:edge", "the fixed-gas visitor accepts a call of a local function without recording it (%s)" % ", ".join(sorted("%s=%s" % (short(t, 50), x) for t, x in pc.items() if t[0] == "bin"))[:200])
            elif not any(t[0] == "bin" and t[1] in ("Eq", "Ne") and x == (0 if t[1] == "Eq" else 1) and tgt in set(subterms(t)) and ("sym", "current") in set(subterms(t))
                         or callee(t) in ("eq", "ne") and x == (0 if callee(t) == "eq" else 1) and tgt in set(subterms(t)) for t, x in pc.items()):
                ctx.violation("C16:gas:self", "the fixed-gas visitor accepts a function that calls itself (an edge from a node to itself is beyond the cycle search)")
    for n in ("Loop", "CallIndirect"):
        ctx.inc("gas_opcodes")
        if idx[n] in accepted:
            ctx.violation("C16:gas:" + n, "the fixed-gas visitor accepts %s" % n)
    # on_end
    body, targs, rp = P.resolve(VIS + "on_end", (ty,))
    r, e = decide(P, body, targs, [sv, ("sym", "program")], None, OPQ)
    for v, pc, ev, st in r.out:
        ctx.inc("gas_ends")
        if is_err(v):
            continue
        fc = [(t, x) for t, x in pc.items() if t[0] == "discr" and callee(t[1]) in ("find_cycles", "try_topological_sort")]
        b_ = ("sym", "v.builder")
        if not any(x == 0 and any(y[0] == "sym" and y[1].startswith("v.") for y in subterms(t)) for t, x in fc):
            ctx.violation("C16:gas:cycles", "%s accepts a program although the search for call cycles %s" % (rp, "found one" if fc else "was not consulted"))
    # find_cycles
    body = P.bodies.get("svm_gas::call_graph::CallGraph::<L>::find_cycles")
    if body is not None:
        r, e = decide(P, body, (("param", 0, "L"),), [("sym", "graph"), ("sym", "rc")], None, ("svm_gas::graph::",))
        nc = [i for i, v in enumerate(P.variants("svm_gas::graph::cycle::GraphCycles")) if v[0] == "NoCycles"][0]
        for v, pc, ev, st in r.out:
            ctx.inc("graph_facts")
            if v[0] == "agg" and v[2] == nc and v[1] == ("adt", "svm_gas::graph::cycle::GraphCycles"):
                if not any(t[0] == "discr" and callee(t[1]) == "try_topological_sort" and x == 0 and ("sym", "graph") in set(subterms(t)) for t, x in pc.items()):
                    ctx.violation("C16:gas:find", "find_cycles reports that there are none although the topological sort %s" % ("failed" if pc else "was not asked"))
    for p, args in (("svm_gas::call_graph::builder::CallGraphBuilder::<L>::add_call", 3),):
        body = P.bodies.get(p)
        if body is None:
            continue
        r, e = decide(P, body, (("param", 0, "L"),), [("sym", "b"), ("sym", "x"), ("sym", "y")], None, ("svm_gas::graph::",))
        for v, pc, ev, st in r.out:
            ctx.inc("graph_facts")
            if not any(x[0] == "call" and x[1].endswith("::add_edge") and x[2][1:] == (("sym", "x"), ("sym", "y")) for x in ev):
                ctx.violation("C16:gas:add_call", "a recorded call doesn't become an edge from caller to callee")


# ---------------------------------------------------------------- the graph
class Sort(Rule):
    max_states = 20000
    Q = ("sym", "queued")

    def __init__(self, P):
        self.P, self.bad, self.n = P, {}, 0
        self.open = set()

    def opaque(self, path, body):
        return path.startswith(("svm_gas::graph::Graph::", "svm_gas::graph::node::", "svm_gas::graph::sort::has_edges", "svm_gas::graph::sort::derive_cycle"))

    def noderef(self, targs):
        return bool(targs) and isinstance(targs[0], tuple) and targs[0][0] == "adt" and targs[0][1].endswith("::NodeRef")

    def on_call(self, eng, st, path, targs, args, site):
        m = path.split("::")[-1]
        if m in ("pop", "pop_front", "pop_back", "remove", "swap_remove") and path.startswith("alloc::") and self.noderef(targs):
            q = eng.snap(st, args[0])
            for t in subterms(q):
                if callee(t) == "nodes":
                    self.bad.setdefault("init", "the topological sort starts from all nodes, not from those without incoming edges")
            self.n += 1
            eng.forget(st, self.Q)
            return [(some(self.Q), st), (NONE, st.copy())]
        if m in ("push", "push_back", "push_front", "insert") and path.startswith("alloc::") and self.noderef(targs):
            x = eng.snap(st, args[-1])
            self.n += 1
            if not any(callee(t) == "is_source" and v == 1 and x in set(subterms(t)) or callee(t) == "has_incoming" and v == 0 and x in set(subterms(t))
                       or t[0] == "bin" and t[1] == "Eq" and v == 1 and any(callee(y) in ("incoming",) for y in subterms(t)) and x in set(subterms(t)) for t, v in st.pc.items()):
                self.bad.setdefault("push", "the topological sort queues a node at %s which may still have incoming edges" % where(site))
            return [(UNIT, st)]
        if path.endswith("::remove_edge"):
            e = eng.snap(st, args[1])
            self.n += 1
            src = e[3][0] if e[0] == "agg" else e
            if self.Q not in set(subterms(src)) or any(callee(t) in ("outgoing", "incoming") for t in subterms(src)):
                self.bad.setdefault("remove", "the topological sort removes an edge at %s that doesn't leave the node taken from the queue" % where(site))
            return [(UNIT, st)]
        if path.endswith("::remove_node"):
            self.n += 1
            if eng.snap(st, args[1]) != self.Q:
                self.bad.setdefault("remove", "the topological sort removes the edges of a node at %s that wasn't taken from the queue" % where(site))
            return [(UNIT, st)]
        return None

    def on_return(self, eng, st, val):
        v = eng.snap(st, val)
        he = [x for t, x in st.pc.items() if callee(t) == "has_edges"]
        if is_err(v):
            if he and 1 not in he:
                self.bad.setdefault("err", "the topological sort reports a cycle although no edge remains")
            return
        if 0 not in he:
            self.bad.setdefault("ok", "the topological sort succeeds although edges may remain")


def graph(ctx, P):
    b = P.bodies.get("svm_gas::graph::sort::try_topological_sort")
    if b is None or "svm_gas::graph::sort::has_edges" not in P.bodies:
        ctx.undecided.append("the topological sort has another form")
    else:
        r = Sort(P)
        e = Engine(P, r)
        try:
            e.run(b, tuple(("param", i, g) for i, g in enumerate(b.gen)), [("sym", "graph"), ("sym", "rc")])
            ctx.inc("graph_facts", r.n)
            ctx.inc("abstract_states", e.stats["states"])
            for k, t in r.bad.items():
                ctx.violation("C16:sort:" + k, t)
        except Budget as x:
            ctx.undecided.append("topological sort: %s" % x)
    N = "svm_gas::graph::node::Node::<L, D>::"
    S = ("obj", "self")
    nf = [f[0] for f in P.adts["svm_gas::graph::node::Node"]["variants"][0][2]]
    inc, out = ("sym", "n.incoming"), ("sym", "n.outgoing")
    sv = ("agg", ("adt", "svm_gas::graph::node::Node"), 0, tuple(("sym", "n." + x) for x in nf))

    def truth(path, wants):
        """Boolean function of the emptiness of the adjacency sets: {(inc empty, out empty): result}"""
        body = P.bodies.get(path)
        if body is None:
            ctx.undecided.append("no " + path)
            return
        r, e = decide(P, body, (None, None), [("ref", S, ())], {S: sv})
        for ie in (0, 1):
            for oe in (0, 1):
                res = set()
                for v, pc, ev, st in r.out:
                    def val(t):
                        if t[0] == "k":
                            return t[1]
                        if t[0] == "un" and t[1] == "Not":
                            x = val(t[2])
                            return None if x is None else 1 - x
                        if callee(t) == "is_empty" and t[2]:
                            return {inc: ie, out: oe}.get(t[2][0])
                        if t[0] == "len":
                            e0 = {inc: ie, out: oe}.get(t[1])
                            return None if e0 is None else (0 if e0 else 1)
                        if callee(t) == "len" and t[2]:
                            e0 = {inc: ie, out: oe}.get(t[2][0])
                            return None if e0 is None else (0 if e0 else 1)
                        if t[0] == "bin":
                            a, b2 = val(t[2]), val(t[3])
                            if a is None or b2 is None:
                                return None
                            return {"Eq": a == b2, "Ne": a != b2, "Lt": a < b2, "Le": a <= b2, "Gt": a > b2, "Ge": a >= b2, "BitAnd": a & b2, "BitOr": a | b2}.get(t[1])
                        return None
                    feas = True
                    for t, x in pc.items():
                        y = val(t)
                        if y is None:
                            continue
                        if isinstance(x, frozenset):
                            feas &= int(y) not in x
                        else:
                            feas &= int(y) == x
                    if feas:
                        z = val(v)
                        res.add(None if z is None else int(z))
                ctx.inc("graph_facts")
                if None in res or not res:
                    ctx.undecided.append("%s of unknown form" % path)
                    return
                if res != {wants(ie, oe)}:
                    ctx.violation("C16:node:" + path.split("::")[-1], "%s of a node with%s incoming and with%s outgoing edges is %s" % (path.split("::")[-1], "out" if ie else "", "out" if oe else "", bool(res.pop())))
                    return
    truth(N + "is_source", lambda i, o: i)
    truth(N + "is_sink", lambda i, o: o)
    truth(N + "is_isolated", lambda i, o: i & o)
    truth(N + "has_incoming", lambda i, o: 1 - i)
    truth(N + "has_outgoing", lambda i, o: 1 - o)
    # edits of the adjacency sets
    for m, op, fld in (("add_out_edge", "insert", out), ("add_in_edge", "insert", inc), ("remove_in_edge", "remove", inc), ("remove_out_edge", "remove", out)):
        body = P.bodies.get(N + m)
        if body is None:
            ctx.undecided.append("no " + m)
            continue
        hits = []

        class E(Rule):
            def on_call(s, eng, st, path, targs, args, site):
                if "IndexSet" in path and len(args) == 2:
                    hits.append((path.split("::")[-1], eng.snap(st, args[0]), eng.snap(st, args[1])))
                return None
        Engine(P, E()).run(body, (None, None), [("ref", S, ()), ("sym", "other")], store={S: sv})
        ctx.inc("graph_facts")
        ops = {"insert": ("insert", "insert_full", "replace"), "remove": ("remove", "swap_remove", "shift_remove", "take")}[op]
        if not any(h[0] in ops and h[1] == fld and h[2] == ("sym", "other") for h in hits):
            if hits:
                ctx.violation("C16:node:" + m, "Node::%s applies %s to its %s edges" % (m, hits[0][0], short(hits[0][1], 20).replace("n.", "")))
            else:
                ctx.violation("C16:node:" + m, "Node::%s doesn't change the set of edges" % m)
    # edges are kept at both ends
    for p, want in (("svm_gas::graph::Graph::<L, D>::remove_edge", {("remove_out_edge", 0, 1), ("remove_in_edge", 1, 0)}),
                    ("svm_gas::graph::builder::GraphBuilder::<L, D>::add_edge", {("add_out_edge", 0, 1), ("add_in_edge", 1, 0)})):
        body = P.bodies.get(p)
        if body is None:
            ctx.undecided.append("no " + p)
            continue
        A, B = ("sym", "A"), ("sym", "B")
        outs = []

        class G(Rule):
            def opaque(s, path, b):
                return path.startswith(N)

            def on_call(s, eng, st, path, targs, args, site):
                if path.startswith(N) and len(args) == 2:
                    st.event("edit", path.split("::")[-1], tuple(tuple(x for x in (A, B) if x in set(subterms(eng.snap(st, a)))) for a in args))
                if path.endswith("::get_or_create_mut"):
                    return [(("call", "node", (eng.snap(st, args[1]),), None), st)]
                return None

            def on_return(s, eng, st, val):
                outs.append([e for e in st.events() if e[0] == "edit"])
        args = [("sym", "g"), tup(A, B)] if p.endswith("remove_edge") else [("sym", "g"), A, B]
        if body.argc != len(args):
            ctx.undecided.append(p + " takes other arguments")
            continue
        Engine(P, G()).run(body, (("param", 0, "L"), ("param", 1, "D")), args)
        for ev in outs:
            got = set()
            for _, m, (r_, o_) in ev:
                if len(r_) == 1 and len(o_) == 1:
                    got.add((m, (A, B).index(r_[0]), (A, B).index(o_[0])))
            ctx.inc("graph_facts")
            if len(ev) and not got:
                ctx.undecided.append(p + " of unknown form")
            elif got != want:
                x = (want - got or got - want).copy().pop()
                ctx.violation("C16:edge:" + p.split("::")[-1], "%s: %s %s of the %s node" % (p.split("::")[-1], "lacks" if x in want else "has an unexpected", x[0], ("source", "target")[x[1]]))
    # has_edges, source_nodes
    PRED = {"is_source": lambda i, o: i, "is_sink": lambda i, o: o, "is_isolated": lambda i, o: i & o, "has_incoming": lambda i, o: 1 - i, "has_outgoing": lambda i, o: 1 - o}
    for p, mode in (("svm_gas::graph::sort::has_edges", "any"), ("svm_gas::graph::Graph::<L, D>::source_nodes", "filter")):
        nm = p.split("::")[-1]
        cl = P.bodies.get(p + "::{closure#0}")
        body = P.bodies.get(p)
        if cl is None or body is None or p + "::{closure#1}" in P.bodies:
            ctx.undecided.append(p + " of another form")
            continue
        quant = {c.split("::")[-1] for c in called(body) if c.split("::")[-1] in ("any", "all", "filter", "position", "find", "take", "skip", "step_by")}
        neg = any(s_[0] == "=" and s_[2][0] == "un" and s_[2][1] == "Not" for bl in body.blocks for s_ in bl[0])
        if mode == "any":
            flip = {("any", False): 0, ("all", True): 1}.get((next(iter(quant)) if len(quant) == 1 else None, neg))
            if flip is None and len(quant) == 1 and quant <= {"any", "all"}:
                flip = None
                ctx.violation("C16:graph:" + nm, "%s asks %swhether %s node satisfies its condition" % (nm, "the contrary of " if neg else "", "every" if "all" in quant else "some"))
                continue
        else:
            flip = 0 if quant == {"filter"} else None
        if flip is None:
            ctx.undecided.append(p + " of another form")
            continue
        r, e = decide(P, cl, tuple(None for _ in cl.gen), [("sym", "env"), ("sym", "node")], None, ("svm_gas::graph::node::",))
        tab = {}
        for ie in (0, 1):
            for oe in (0, 1):
                def val(t):
                    if t[0] == "k":
                        return int(t[1])
                    if t[0] == "un" and t[1] == "Not":
                        x = val(t[2])
                        return None if x is None else 1 - x
                    if t[0] == "bin":
                        a, b2 = val(t[2]), val(t[3])
                        if a is None or b2 is None:
                            return None
                        y = {"Eq": a == b2, "Ne": a != b2, "BitAnd": a & b2, "BitOr": a | b2, "BitXor": a ^ b2}.get(t[1])
                        return None if y is None else int(y)
                    if callee(t) in PRED:
                        return PRED[callee(t)](ie, oe)
                    return None
                res = set()
                for v, pc, ev, st in r.out:
                    if all(val(t) is None or (val(t) not in x if isinstance(x, frozenset) else val(t) == x) for t, x in pc.items()):
                        res.add(val(v))
                tab[ie, oe] = res
        ctx.inc("graph_facts", 4)
        if any(len(x) != 1 or None in x for x in tab.values()):
            ctx.undecided.append(p + " of another form")
            continue
        for (ie, oe), x in sorted(tab.items()):
            x = next(iter(x)) ^ flip
            want = 1 - (ie & oe) if mode == "any" else ie
            # when the queue is empty, every remaining edge leaves a node that has incoming edges: nodes with one kind only don't matter
            if mode == "any" and ie != oe:
                continue
            if x != want:
                ctx.violation("C16:graph:" + nm, "%s %s nodes with%s incoming and with%s outgoing edges" % (nm, "passes over" if want else "selects", "out" if ie else "", "out" if oe else ""))
                break


# ---------------------------------------------------------------- Runtime::validate_deploy
class Dep(RtRule):
    def __init__(self, P):
        super().__init__(P)
        self.out = []

    def on_call(self, eng, st, path, targs, args, site):
        if path == PN:
            st.event("new", tuple(eng.snap(st, a) for a in args))
        return super().on_call(eng, st, path, targs, args, site)

    def on_return(self, eng, st, val):
        self.out.append((eng.snap(st, val), dict(st.pc), st.events()))


def deploy(ctx, P):
    r = Dep(P)
    e = explore(P, r, "validate_deploy", [("sym", "self"), ("sym", "message")])
    ctx.inc("abstract_states", e.stats["states"])
    for v, pc, ev in r.out:
        if is_err(v):
            continue
        if not is_ok(v) and not (v[0] == "call"):
            ctx.undecided.append("validate_deploy returns " + short(v, 40))
            continue
        news = [x for x in ev if x[0] == "new"]
        okn = [t for t, x in pc.items() if t[0] == "discr" and t[1][0] == "call" and t[1][1] == PN and x == 0]
        ctx.inc("deploy_gates")
        if not okn:
            ctx.violation("C16:deploy:new", "Runtime::validate_deploy accepts a template on a path where Program::new did not succeed on its code")
        for n in news:
            if n[1][1] != TRUE:
                ctx.violation("C16:deploy:exports", "Runtime::validate_deploy doesn't ask for its exports to be validated")
            if not any(callee(t) == "code" or t[0] == "fld" and t[3] == "code" for t in subterms(n[1][0])):
                ctx.violation("C16:deploy:code", "Runtime::validate_deploy validates %s, not the code of the template" % short(n[1][0], 60))
        g = [t for t, x in pc.items() if t[0] == "discr" and callee(t[1]) == "validate_wasm" and x == 0] or ([v] if callee(v) == "validate_wasm" else [])
        if not g:
            ctx.violation("C16:deploy:gas", "Runtime::validate_deploy accepts a template on a path where the fixed-gas validation did not succeed")
        else:
            ctx.inc("deploy_gates")
            if not any(any(t[0] == "call" and t[1] == PN for t in subterms(x)) for x in g):
                ctx.violation("C16:deploy:gas", "Runtime::validate_deploy runs the fixed-gas validation on another program")


def check(ctx):
    P = ctx.P
    visitor(ctx, P)
    program_new(ctx, P)
    exports(ctx, P)
    gas(ctx, P)
    graph(ctx, P)
    deploy(ctx, P)

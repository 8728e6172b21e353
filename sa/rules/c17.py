"""C17: storage variables hold what was stored in them."""
from ..eng import *
from ..codec import short
from . import st as ST
from .c15 import plus
from . import c15

RULE = ("set_var_bytes and get_var split the variable that the layout names into the same segments (var_segments of the account's address, the variable's offset and size); for each segment, in order, set reads the segment, "
        "replaces exactly its range by the next bytes of the value and writes it back under the key it was read from, and get copies exactly its range to the next bytes of the buffer; "
        "var_segments yields consecutive segments from offset / SEGMENT_SIZE on, each range within a segment, full up to the boundary except the last, with lengths that add up to the size; "
        "FixedLayout gives variable k the bytes after those of the variables before it and finds it under first + k; integers are converted in little-endian order both ways; host functions pass variable, value and memory range on unchanged")
EXPLAIN = ("Path-sensitive dataflow with symbolic segments, slices and linear arithmetic over the bodies of svm_state::account_storage, svm_layout and the storage host functions. Loops over segments and variables are followed for their first three rounds with distinct symbols; no execution.")
FLOORS = {"copies": 2, "segments": 2, "integer_accesses": 4, "host_functions": 6, "layouts": 2}
ASSUME = ["the state store returns what was written last (C11)", "library functions behave as documented", "loop bodies treat rounds after the third like the first three"]
ACC = "svm_state::account_storage::AccountStorage::"
ROUNDS = 3


def callee(t):
    return t[1].split("::")[-1] if t[0] == "call" else None


def is_ok(v):
    return v[0] == "agg" and v[1] == RES and v[2] == 0


def plain(t, memo=None):
    """Without casts; the bounds of a range by themselves."""
    memo = {} if memo is None else memo
    if not isinstance(t, tuple) or not t or id(t) in memo:
        return memo.get(id(t), (t, t))[1] if isinstance(t, tuple) else t
    if t[0] in ("trunc", "cast") and len(t) > 2:
        r = plain(t[2] if isinstance(t[2], tuple) else t[1], memo)
    elif t[0] == "call" and callee(t) in ("start", "end") and len(t[2]) == 1 and t[2][0][0] == "range":
        r = plain(t[2][0][1 if callee(t) == "start" else 2], memo)
    elif t[0] in ("call", "iter_count") and str(t[1] if t[0] == "call" else t[0]).split("::")[-1] in ("iter_count", "count") and any(x[0] == "range" for x in subterms(t)):
        g = [x for x in subterms(t) if x[0] == "range"][0]
        r = plain(("bin", "Add", ("bin", "Sub", g[2], g[1]), ("k", 1, "usize")), memo)
    else:
        r = tuple(plain(x, memo) if isinstance(x, tuple) else x for x in t)
    memo[id(t)] = (t, r)
    return r


def lin(t):
    return {k: v for k, v in c15.lin(plain(t)).items() if v}


def facts(pc):
    return c15.facts({plain(t): v for t, v in pc.items()})


def flat(t):
    """(base, lo) of nested slices, as a linear form, and the length."""
    n = None
    lo = {}
    while True:
        if t[0] == "fld" and callee(t[1]) in ("split_at", "split_at_mut") and str(t[3]) in ("0", "1"):
            x, k = t[1][2][0], t[1][2][1]
            t = ("slice", x, ("k", 0, "usize"), k) if str(t[3]) == "0" else ("slice", x, k, ("len", x))
        if t[0] != "slice":
            break
        if n is None:
            n = plus(lin(t[3]), lin(t[2]), -1)
        lo = plus(lo, lin(t[2]))
        t = t[1]
    return t, lo, n


def eqs(pc):
    """Equalities among the facts of a path."""
    fs = facts(pc)
    neg = [plus({}, f, -1) for f in fs]
    return [f for f in fs if f in neg and f]


def same(a, b, es):
    d = plus(a, b, -1)
    return not d or any(plus(d, e, s) == {} for e in es for s in (1, -1)) or any(plus(plus(d, e, s), e2, s2) == {} for e in es for s in (1, -1) for e2 in es for s2 in (1, -1))


class Var(Rule):
    """One of set_var_bytes / get_var."""
    max_states = 15000
    max_seconds = 90

    def __init__(self, P, seg):
        self.P = P
        self.seg = seg
        self.bad = {}
        self.n = {"copies": 0, "splits": 0}
        self.open = set()

    def say(self, k, t):
        self.bad.setdefault(k, t)

    def opaque(self, path, body):
        return path.startswith(("svm_layout::", "svm_state::storage::", "svm_state::global_state")) or path.endswith("::var_segments")

    def round(self, k):
        key, rng = self.seg
        names = [key, rng]
        adt = self.P.adts["svm_state::account_storage::Segment"]["variants"][0][2]
        vals = []
        for f in adt:
            if f[0] == key:
                vals.append(("sym", "key%d" % k))
            else:
                vals.append(("range", ("sym", "start%d" % k), ("sym", "end%d" % k)))
        return ("agg", ("adt", "svm_state::account_storage::Segment"), 0, tuple(vals))

    def on_call(self, eng, st, path, targs, args, site):
        m = path.split("::")[-1]
        g = st.ghost
        if path.endswith("::var_segments"):
            a = [eng.snap(st, x) for x in args]
            self.n["splits"] += 1
            self.split(a, st, site)
            return None
        if m == "next" and path.endswith("Iterator::next"):
            it = eng.snap(st, args[0])
            if not any(callee(t) == "var_segments" for t in subterms(it)):
                return None
            if it[0] != "iter" and it[0] != "call":
                self.open.add("segments are enumerated through %s" % short(it, 40))
            k = len(g)
            s = st.copy()
            s.ghost = g
            out = [(NONE, s)]
            if k < ROUNDS:
                st.ghost = g + (((),),)
                st.ghost = g + ((),)
                out.append((some(self.round(k)), st))
            return out
        if m == "copy_from_slice" or m == "clone_from_slice":
            src = eng.snap(st, args[1])
            d = args[0]
            if d[0] == "ref" and d[2] and d[2][-1][0] == "[]" and d[2][-1][1][0] == "rng":
                rng = d[2][-1][1]
                old = eng.snap(st, ("ref", d[1], d[2][:-1]))
                eng.write(st, d[1], d[2][:-1], ("patched", old, eng.snap(st, rng[1]), eng.snap(st, rng[2]), src))
                self.log(st, ("patch", rng[1], rng[2], src, where(site)))
                return [(UNIT, st)]
            if d[0] == "ref":
                v = eng.snap(st, d)
            else:
                v = d
            if v[0] in ("slice", "sym"):
                self.log(st, ("copy", v, src, where(site)))
                return [(UNIT, st)]
            return None
        if path.startswith("svm_state::storage::") and m in ("get", "upsert"):
            a = tuple(eng.snap(st, x) for x in args)
            absent = any(t[0] == "discr" and x == 0 and t[1][0] == "fld" and t[1][2] == "Ok" and any(callee(y) == "get" for y in subterms(t)) for t, x in st.pc.items())
            self.log(st, (m, a[1:], where(site), absent))
        return None

    def log(self, st, ev):
        g = st.ghost
        if not g:
            self.open.add("%s outside the loop over segments" % ev[0])
            return
        st.ghost = g[:-1] + (g[-1] + (ev,),)

    def split(self, a, st, site):
        es = eqs(st.pc)
        raw = [t for x in a[1:] for t in subterms(x) if callee(t) in ("get", "try_get") and t[1].startswith("svm_layout::")]
        w = where(site)
        if a[0] != ("fld", ("sym", "self"), None, "address"):
            self.say("split:addr", "the segments at %s are those of %s, not of the account itself" % (w, short(a[0], 40)))
        if not raw:
            self.open.add("the segments are not derived from the layout")
            return
        raw = raw[0]
        if raw[2] != (("fld", ("sym", "self"), None, "layout"), ("sym", "var_id")) and raw[2][-1] != ("sym", "u32"):
            self.say("split:var", "the segments at %s are those of variable %s" % (w, short(raw[2][-1], 40)))
        f = lambda n: ("fld", raw, None, n)
        if not same(lin(a[1]), {f("offset"): 1}, es):
            self.say("split:offset", "the segments at %s start at %s, not at the variable's offset" % (w, short(a[1], 100)))
        if not same(lin(a[2]), {f("byte_size"): 1}, es):
            self.say("split:size", "the segments at %s cover %s bytes, not the variable's size" % (w, short(a[2], 100)))


def length(k):
    return {("sym", "end%d" % k): 1, ("sym", "start%d" % k): -1, None: 1}


class Set(Var):
    def on_return(self, eng, st, val):
        v = eng.snap(st, val)
        if not is_ok(v):
            return
        pos = {}
        for k, evs in enumerate(st.ghost):
            key = ("sym", "key%d" % k)
            S, E = ("sym", "start%d" % k), ("sym", "end%d" % k)
            gets = [e for e in evs if e[0] == "get"]
            ups = [e for e in evs if e[0] == "upsert"]
            if not ups:
                self.say("lost", "a segment of a variable is not written by set_var_bytes")
                return
            if len(ups) > 1:
                self.open.add("several writes of a segment")
                return
            u = ups[0]
            self.n["copies"] += 1
            if u[1][0] != key:
                self.say("key", "a segment is written at %s under %s, not its own key" % (u[2], short(u[1][0], 40)))
            t = u[1][1]
            if t[0] == "slice":
                b, lo, n = flat(t)
                self.say("part", "only a part (%s) of a segment is written at %s" % (short(t, 60), u[2]))
                return
            if t[0] != "patched":
                if any(e[0] == "patch" for e in evs) or t[0] == "agg":
                    self.say("other", "what is written at %s is %s, not the changed segment" % (u[2], short(t, 80)))
                else:
                    self.open.add("segment written as %s" % short(t, 60))
                return
            _, old, lo, hi, src = t
            if old[0] == "patched":
                self.open.add("several changes of a segment")
                return
            if lin(lo) != {S: 1} or lin(hi) != {E: 1, None: 1}:
                self.say("range", "bytes %s .. %s of a segment are replaced at %s, not the range of the variable" % (short(lo, 30), short(hi, 30), u[2]))
            if not gets:
                self.say("blind", "a segment is written at %s without keeping the bytes of the other variables in it" % u[2])
            elif gets[0][1][0] != key:
                self.say("key", "a segment is read at %s from %s, not its own key" % (gets[0][2], short(gets[0][1][0], 40)))
            if gets and old[0] == "agg" and not u[3]:
                self.say("blind", "the bytes of the other variables in a segment are lost at %s although it was present" % u[2])
            base, slo, n = flat(src)
            es = eqs(st.pc)
            if base[0] != "sym":
                self.open.add("value copied from %s" % short(base, 40))
                return
            if n is None:
                n = {("len", base): 1}
            if slo != pos:
                self.say("pos", "segment %d of a variable takes the value's bytes from %s on, not those after the segments before (%s)" % (k, form(slo), form(pos)))
            elif n != length(k) and not same(n, length(k), es):
                self.say("len", "segment %d of a variable takes %s bytes of the value, not as many as its range has" % (k, form(n)))
            pos = plus(pos, length(k))


def form(f):
    return " + ".join(("%s%s" % ("" if c == 1 else "%d*" % c, short(x, 30))) if x is not None else str(c) for x, c in sorted(f.items(), key=str)) or "0"


class Get(Var):
    def on_return(self, eng, st, val):
        v = eng.snap(st, val)
        if not is_ok(v):
            return
        pos = {}
        for k, evs in enumerate(st.ghost):
            key = ("sym", "key%d" % k)
            S, E = ("sym", "start%d" % k), ("sym", "end%d" % k)
            gets = [e for e in evs if e[0] == "get"]
            cps = [e for e in evs if e[0] == "copy"]
            if len(cps) != 1:
                if not cps and not any(e[0] == "patch" for e in evs):
                    self.say("lost", "a segment of a variable is not copied by get_var")
                else:
                    self.open.add("several copies of a segment")
                return
            _, dst, src, w = cps[0]
            self.n["copies"] += 1
            if not gets:
                self.open.add("segment not read in the loop")
                return
            if gets[0][1][0] != key:
                self.say("key", "a segment is read at %s from %s, not its own key" % (gets[0][2], short(gets[0][1][0], 40)))
            b, lo, n = flat(src)
            if n is None:
                self.open.add("segment copied as %s" % short(src, 40))
                return
            if lo != {S: 1} or n != length(k):
                self.say("range", "bytes %s (%s of them) of a segment are read at %s, not the range of the variable" % (form(lo), form(n), w))
            if not any(callee(t) == "get" for t in subterms(b)) and not (b[0] == "agg" and all(x == ("k", 0, "u8") for x in b[3])):
                self.say("other", "what is copied at %s is %s, not the segment" % (w, short(b, 60)))
            base, dlo, dn = flat(dst)
            if dlo != pos:
                self.say("pos", "segment %d of a variable is put at %s of the buffer, not after the segments before (%s)" % (k, form(dlo), form(pos)))
            pos = plus(pos, length(k))


def variables(ctx, P):
    adt = P.adts.get("svm_state::account_storage::Segment")
    fs = [(f[0], f[1]) for f in adt["variants"][0][2]] if adt else []
    key = [n for n, t in fs if "String" in str(t)]
    rng = [n for n, t in fs if "RangeInclusive" in str(t)]
    if len(fs) != 2 or not key or not rng:
        ctx.undecided.append("segments have another form")
        return
    for fn, cls in (("set_var_bytes", Set), ("get_var", Get)):
        r = cls(P, (key[0], rng[0]))
        b = P.bodies.get(ACC + fn)
        if b is None:
            ctx.undecided.append("no " + fn)
            continue
        args = ST.roles(b)
        args[0], args[1] = ("sym", "self"), ("sym", "var_id")
        try:
            e = ST.run_fn(P, r, ACC + fn, ghost=(), args=args)
        except Budget as x:
            ctx.undecided.append("%s: %s" % (fn, x))
            continue
        ctx.inc("abstract_states", e.stats["states"])
        ctx.inc("copies", r.n["copies"])
        ctx.inc("splits", r.n["splits"])
        for k, t in r.bad.items():
            ctx.violation("C17:%s:%s" % (fn, k), "%s: %s" % (fn, t))
        for o in sorted(r.open):
            ctx.undecided.append("%s: %s" % (fn, o))


# ---------------------------------------------------------------- linear implication (Fourier-Motzkin over the rationals)
def infeasible(fs, limit=4000):
    """Do these linear forms (each >= 0) contradict each other?"""
    fs = [dict(f) for f in fs]
    for _ in range(12):
        const = [f for f in fs if set(f) <= {None}]
        if any(f.get(None, 0) < 0 for f in const):
            return True
        fs = [f for f in fs if not set(f) <= {None}]
        if not fs:
            return False
        cnt = {}
        for f in fs:
            for x in f:
                if x is not None:
                    a, b = cnt.get(x, (0, 0))
                    cnt[x] = (a + (f[x] > 0), b + (f[x] < 0))
        x = min(cnt, key=lambda y: (cnt[y][0] * cnt[y][1], str(y)))
        pos = [f for f in fs if f.get(x, 0) > 0]
        neg = [f for f in fs if f.get(x, 0) < 0]
        rest = [f for f in fs if x not in f]
        seen = {frozenset(f.items()) for f in rest}
        for p in pos:
            for n in neg:
                c = {}
                for k in set(p) | set(n):
                    v = p.get(k, 0) * -n[x] + n.get(k, 0) * p[x]
                    if v:
                        c[k] = v
                if frozenset(c.items()) not in seen:
                    seen.add(frozenset(c.items()))
                    rest.append(c)
        if len(rest) > limit:
            return False
        fs = rest
    return False


def nonneg(goal, fs):
    """goal >= 0 follows."""
    return infeasible(fs + [plus(plus({}, goal, -1), {None: -1})])


def zero(goal, fs):
    return not goal or nonneg(goal, fs) and nonneg(plus({}, goal, -1), fs)


# ---------------------------------------------------------------- segmentation
class Segs(Rule):
    max_states = 6000

    def __init__(self):
        self.rets = []

    def opaque(self, path, body):
        return path.startswith("svm_state::account_storage::key_")

    def on_call(self, eng, st, path, targs, args, site):
        if path.endswith("::push") and len(args) == 2:
            v = eng.snap(st, args[1])
            if v[0] == "agg" and any(x[0] == "range" for x in v[3]):
                if len(st.ghost) >= ROUNDS:
                    return []
                st.ghost = st.ghost + (v,)
        return None

    def on_return(self, eng, st, val):
        v = eng.snap(st, val)
        self.rets.append((st.ghost, v, dict(st.pc)))


def segmentation(ctx, P):
    p = "svm_state::account_storage::var_segments"
    b = P.bodies.get(p)
    if b is None or b.argc != 3:
        ctx.undecided.append("variables are split in another form")
        return
    r = Segs()
    e = Engine(P, r)
    off, size = ("sym", "offset"), ("sym", "size")
    try:
        e.run(b, (), [("sym", "addr"), off, size], ghost=())
    except Budget as x:
        ctx.undecided.append("var_segments: %s" % x)
        return
    ctx.inc("abstract_states", e.stats["states"])
    bad = {}
    got = set()
    for segs, v, pc in r.rets:
        pc = {plain(t): x for t, x in pc.items()}
        # offset = N q + r
        base = {size: 1, None: -1}
        fs = [base, {off: 1}]
        divs = {}
        for t in [y for k in list(pc) + [plain(s_) for s_ in segs] for y in subterms(k)]:
            if t[0] == "bin" and t[1] in ("Div", "Rem") and t[3][0] == "k" and lin(t[2]) == {off: 1}:
                n = t[3][1]
                divs[n] = True
        if len(divs) != 1:
            ctx.undecided.append("var_segments doesn't divide the offset by a constant")
            return
        n = next(iter(divs))
        q = [("bin", "Div", off, ("k", n, "usize")), ("bin", "Rem", off, ("k", n, "usize"))]
        ren = lambda f: {({"Div": "q", "Rem": "r"}.get(k[1], k) if k is not None and k[0] == "bin" and k[1] in ("Div", "Rem") and k[3][0] == "k" and k[3][1] == n and lin(k[2]) == {off: 1} else k): c for k, c in f.items()}
        fs = [ren(f) for f in fs + facts(pc)]
        fs += [{"q": 1}, {"r": 1}, {"r": -1, None: n - 1}, {off: 1, "q": -n, "r": -1}, {off: -1, "q": n, "r": 1}]
        if infeasible(fs):
            continue
        if v[0] == "agg" and v[1][0] == "array" and len(v[3]) != len(segs) or v[0] not in ("agg", "seq"):
            ctx.undecided.append("the segments of a variable are returned as %s" % short(v, 60))
            return
        total = {}
        prev = None
        ctx.inc("segments", len(segs))
        ctx.inc("segment_paths")
        got.add(len(segs))
        L = lambda t: ren(lin(t))
        for k, s_ in enumerate(segs):
            rng = [x for x in s_[3] if x[0] == "range"][0]
            key = [x for x in s_[3] if x[0] != "range"]
            ix = [t[2][-1] for x in key for t in subterms(x) if t[0] == "call" and t[1].startswith("svm_state::account_storage::key_")]
            if not ix:
                ctx.undecided.append("the key of a segment is of another form")
                return
            idx, lo, hi = L(ix[0]), L(rng[1]), L(rng[2])
            if prev is None:
                d = plus(plus({a: c * n for a, c in idx.items()}, lo), {off: 1}, -1)
                if not zero(d, fs):
                    bad.setdefault("first", "the first segment of a variable is number %s from byte %s on, which is not where its offset falls" % (form(idx), form(lo)))
            else:
                if not zero(plus(plus(idx, prev, -1), {None: -1}), fs):
                    bad.setdefault("next", "segment %d of a variable is number %s, not the one after number %s" % (k, form(idx), form(prev)))
                if not zero(lo, fs):
                    bad.setdefault("start", "segment %d of a variable starts at byte %s, not 0" % (k, form(lo)))
                if not zero(plus(phi, {None: 1 - n}), fs):
                    bad.setdefault("full", "segment %d of a variable may end at byte %s although another follows" % (k - 1, form(phi)))
            if not nonneg(plus({None: n - 1}, hi, -1), fs):
                bad.setdefault("end", "segment %d of a variable may end at byte %s, beyond the segment" % (k, form(hi)))
            if not nonneg(plus(hi, lo, -1), fs):
                bad.setdefault("empty", "segment %d of a variable may be empty: %s to %s" % (k, form(lo), form(hi)))
            total = plus(plus(plus(total, hi), lo, -1), {None: 1})
            prev, phi = idx, hi
        if not zero(plus(total, {size: 1}, -1), fs):
            bad.setdefault("total", "a variable may be split into segments of %s bytes in total (%d of them), not its size" % (form(total), len(segs)))
    if not {1, 2, 3} <= got:
        ctx.undecided.append("var_segments: only %s segments followed" % sorted(got))
    for k, t in bad.items():
        ctx.violation("C17:segments:" + k, t)


# ---------------------------------------------------------------- layout
class Sizes(Rule):
    max_states = 6000

    def __init__(self):
        self.rets = []

    def on_call(self, eng, st, path, targs, args, site):
        if path.endswith("next") and args:
            it = eng.snap(st, args[0])
            if it == ("iter", ("sym", "lengths")):
                s = st.copy()
                s.ghost = st.ghost + ("end",)
                k = len(st.ghost)
                if k >= ROUNDS:
                    return [(NONE, s)]
                st.ghost = st.ghost + ("len%d" % k,)
                return [(some(("sym", "len%d" % k)), st), (NONE, s)]
        return None

    def on_return(self, eng, st, val):
        self.rets.append((eng.snap(st, val), st.ghost, dict(st.pc)))

    def on_panic(self, eng, st, what, site):
        pass


def layouts(ctx, P):
    F = "svm_layout::fixed::FixedLayout::"
    adt = P.adts.get("svm_layout::fixed::FixedLayout")
    rv = P.adts.get("svm_layout::var::RawVar")
    names = [f[0] for f in adt["variants"][0][2]]
    rn = [f[0] for f in rv["variants"][0][2]]
    b = P.bodies.get(F + "from_byte_sizes")
    first = ("sym", "first")
    if b is None:
        ctx.undecided.append("no from_byte_sizes")
    else:
        r = Sizes()
        e = Engine(P, r)
        try:
            e.run(b, (), [first, ("sym", "lengths")], ghost=())
        except Budget as x:
            ctx.undecided.append("from_byte_sizes: %s" % x)
            r.rets = []
        for v, g, pc in r.rets:
            if v[0] != "agg" or not g or g[-1] != "end":
                ctx.undecided.append("from_byte_sizes of another form")
                continue
            f = dict(zip(names, v[3]))
            k = len(g) - 1
            vs = f["vars"]
            if vs[0] != "agg" or vs[1][0] != "array":
                ctx.undecided.append("the variables of a layout are %s" % short(vs, 60))
                continue
            ctx.inc("layouts")
            if f["first"] != some(first) and not (k == 0 and f["first"] == NONE):
                ctx.violation("C17:layout:first", "FixedLayout::from_byte_sizes says that the first variable is %s" % short(f["first"], 40))
            if len(vs[3]) != k:
                ctx.violation("C17:layout:count", "FixedLayout::from_byte_sizes makes %d variables of %d sizes" % (len(vs[3]), k))
                continue
            pos = {}
            for i, x in enumerate(vs[3]):
                if x[0] != "agg":
                    ctx.undecided.append("a variable of a layout is %s" % short(x, 60))
                    break
                y = dict(zip(rn, x[3]))
                n = {("sym", "len%d" % i): 1}
                if lin(y["byte_size"]) != n:
                    ctx.violation("C17:layout:size", "FixedLayout::from_byte_sizes gives variable %d the size %s" % (i, form(lin(y["byte_size"]))))
                if lin(y["offset"]) != pos:
                    ctx.violation("C17:layout:offset", "FixedLayout::from_byte_sizes places variable %d at %s, not at %s" % (i, form(lin(y["offset"])), form(pos)))
                d = plus(lin(y["id"]), {first: 1}, -1)
                if not (len(d) == 1 and all(z is not None and z[0] == "ctr" and c == 1 for z, c in d.items()) or d == ({None: i} if i else {})):
                    ctx.violation("C17:layout:id", "FixedLayout::from_byte_sizes gives variable %d the id %s" % (i, form(lin(y["id"]))))
                pos = plus(pos, n)
    S = ("obj", "self")
    sv = ("agg", ("adt", "svm_layout::fixed::FixedLayout"), 0, tuple(("sym", "l." + n) for n in names))
    for m in ("get", "try_get"):
        b = P.bodies.get(F + m)
        if b is None:
            continue
        r = Sizes()
        pan = []
        r.on_panic = lambda eng, st, what, site: pan.append((what, where(site)))
        e = Engine(P, r)
        e.run(b, (), [("ref", S, ()), ("sym", "id")], store={S: sv}, ghost=())
        want = {("sym", "id"): 1, ("fld", ("sym", "l.first"), "Some", "0"): -1}
        for v, g, pc in r.rets:
            ctx.inc("lookups")
            ix = [t[2] if t[0] == "idx" else t[2][1] for t in subterms(v) if t[0] == "idx" and t[1] == ("sym", "l.vars") or callee(t) == "get" and len(t[2]) == 2 and t[2][0] == ("sym", "l.vars")]
            if v == NONE:
                continue
            if not ix:
                ctx.undecided.append("FixedLayout::%s returns %s" % (m, short(v, 60)))
            elif any(lin(x) != want for x in ix):
                ctx.violation("C17:layout:" + m, "FixedLayout::%s finds variable id at position %s, not id - first" % (m, form(lin(ix[0]))))
        if m == "try_get":
            for what, w in pan[:1]:
                ctx.violation("C17:layout:panic", "FixedLayout::try_get panics at %s for some variables" % w)


# ---------------------------------------------------------------- integers and host functions
class Calls(Rule):
    max_states = 8000

    def __init__(self, names, keep=()):
        self.names = names
        self.keep = keep
        self.rets = []

    def opaque(self, path, body):
        return path.startswith(self.keep) if self.keep else path.startswith(ACC) and path.split("::")[-1] in self.names

    def on_call(self, eng, st, path, targs, args, site):
        if path.startswith(ACC) and path.split("::")[-1] in self.names:
            m = path.split("::")[-1]
            st.event("var", m, tuple(eng.snap(st, a) for a in args), where(site))
            if m == "get_var":
                d = args[2]
                old = eng.snap(st, d)
                if d[0] == "ref":
                    eng.write(st, d[1], d[2], ("filled", eng.snap(st, args[1]), old))
        if path.endswith("Cell::<T>::set") and len(args) == 2:
            st.event("cell", tuple(eng.snap(st, a) for a in args), where(site))
        return None

    def on_return(self, eng, st, val):
        self.rets.append((eng.snap(st, val), st.events(), dict(st.pc)))


def casts(t):
    out = []
    while t[0] in ("cast", "trunc"):
        out += [x for x in t[1:] if isinstance(x, str)] + [x[1] for x in t[1:] if isinstance(x, tuple) and x and x[0] == "p"]
        t = t[2] if isinstance(t[2], tuple) and t[2] and t[2][0] != "p" else t[1]
    return out, t


BITS = {"i8": 8, "u8": 8, "i16": 16, "u16": 16, "i32": 32, "u32": 32, "i64": 64, "u64": 64, "usize": 64, "isize": 64}


def integers(ctx, P):
    for bits in (32, 64):
        n = bits // 8
        fn = ACC + "set_var_i%d" % bits
        b = P.bodies.get(fn)
        if b is not None:
            r = Calls(("set_var_bytes",))
            ST.run_fn(P, r, fn, args=[("sym", "self"), ("sym", "var_id"), ("sym", "value")])
            for v, ev, pc in r.rets:
                if v[0] == "agg" and v[1] == RES and v[2] == 1:
                    continue
                c = [e for e in ev if e[0] == "var"]
                ctx.inc("integer_accesses")
                if len(c) != 1:
                    ctx.violation("C17:set%d" % bits, "set_var_i%d %s" % (bits, "doesn't store the value" if not c else "stores more than once"))
                    continue
                a = c[0][2]
                if plain(a[1]) != ("sym", "var_id"):
                    ctx.violation("C17:set%d:var" % bits, "set_var_i%d stores to variable %s" % (bits, short(a[1], 40)))
                enc = [t for t in subterms(a[2]) if t[0] == "tobytes"]
                if not enc:
                    ctx.undecided.append("set_var_i%d encodes its value as %s" % (bits, short(a[2], 60)))
                elif enc[0][1] != "le":
                    ctx.violation("C17:set%d:order" % bits, "set_var_i%d stores the value in big-endian order" % bits)
                elif plain(enc[0][3]) != ("sym", "value"):
                    ctx.violation("C17:set%d:value" % bits, "set_var_i%d stores %s, not its value" % (bits, short(enc[0][3], 60)))
                elif enc[0][2] < n:
                    ctx.violation("C17:set%d:value" % bits, "set_var_i%d stores %d bytes of its value" % (bits, enc[0][2]))
                elif a[2][0] == "slice":
                    ctx.violation("C17:set%d:part" % bits, "set_var_i%d stores a part of the value only: %s" % (bits, short(a[2], 60)))
        fn = ACC + "get_var_i%d" % bits
        b = P.bodies.get(fn)
        if b is not None:
            r = Calls(("get_var",))
            ST.run_fn(P, r, fn, args=[("sym", "self"), ("sym", "var_id")])
            for v, ev, pc in r.rets:
                if not is_ok(v):
                    continue
                ctx.inc("integer_accesses")
                x = v[3][0]
                dec = [t for t in subterms(x) if t[0] == "frombytes"]
                fill = [t for t in subterms(x) if t[0] == "filled"]
                if not fill:
                    if any(e[0] == "var" for e in ev):
                        ctx.undecided.append("get_var_i%d returns %s" % (bits, short(x, 60)))
                    else:
                        ctx.violation("C17:get%d" % bits, "get_var_i%d returns %s without reading the variable" % (bits, short(x, 40)))
                    continue
                if plain(fill[0][1]) != ("sym", "var_id"):
                    ctx.violation("C17:get%d:var" % bits, "get_var_i%d reads variable %s" % (bits, short(fill[0][1], 40)))
                if not dec:
                    ctx.undecided.append("get_var_i%d decodes its value as %s" % (bits, short(x, 60)))
                elif dec[0][1] != "le":
                    ctx.violation("C17:get%d:order" % bits, "get_var_i%d reads the value in big-endian order" % bits)
                old = fill[0][2]
                if old[0] == "agg" and old[1][0] == "array" and any(z[0] == "k" and z[1] != 0 for z in old[3]):
                    ctx.violation("C17:get%d:pad" % bits, "get_var_i%d pads short variables with %s" % (bits, short(old, 40)))


def buffers(ctx, P):
    for fn in ("get_var_vec", "get_var_array"):
        b = P.bodies.get(ACC + fn)
        if b is None:
            continue
        r = Calls(("get_var",))
        ST.run_fn(P, r, ACC + fn, args=[("sym", "self"), ("sym", "var_id")])
        for v, ev, pc in r.rets:
            if not is_ok(v):
                continue
            ctx.inc("buffers")
            c = [e for e in ev if e[0] == "var"]
            if len(c) != 1:
                ctx.violation("C17:%s" % fn, "%s returns without reading the variable" % fn)
            elif plain(c[0][2][1]) != ("sym", "var_id"):
                ctx.violation("C17:%s:var" % fn, "%s reads variable %s" % (fn, short(c[0][2][1], 40)))
            else:
                x = plain(c[0][2][2])
                if x[0] == "repeat" and any(t[0] == "fld" and t[3] in ("offset", "id") for t in subterms(x[2])):
                    ctx.violation("C17:%s:size" % fn, "%s reads into a buffer of %s bytes" % (fn, short(x[2], 40)))


def host(ctx, P):
    H = "svm_runtime::vmcalls::storage::"
    FE = ("svm_runtime::func_env::",)
    var, val, ptr, env = ("sym", "var_id"), ("sym", "value"), ("sym", "ptr"), ("sym", "env")
    N = ("get_var", "get_var_vec", "get_var_array", "get_var_i32", "get_var_i64", "set_var_bytes", "set_var_i32", "set_var_i64")

    def run(name, args):
        b = P.bodies.get(H + name)
        if b is None or b.argc != len(args):
            ctx.undecided.append("no host function %s" % name)
            return []
        r = Calls(N, FE + (ACC,))
        e = Engine(P, r)
        e.run(b, (), args)
        ctx.inc("host_functions")
        ctx.inc("abstract_states", e.stats["states"])
        return r.rets

    for bits in (32, 64):
        for v, ev, pc in run("get%d" % bits, [env, var]):
            c = [e for e in ev if e[0] == "var"]
            cs, t = casts(v)
            if len(c) != 1 or c[0][1] not in ("get_var_i32", "get_var_i64"):
                ctx.undecided.append("get%d reads its variable in another form" % bits)
                continue
            if plain(c[0][2][1]) != var:
                ctx.violation("C17:host:get%d" % bits, "get%d reads variable %s" % (bits, short(c[0][2][1], 40)))
            if any(callee(y) in N for y in subterms(t)) is False:
                ctx.violation("C17:host:get%d" % bits, "get%d returns %s, not the variable" % (bits, short(v, 40)))
            low = [x for x in cs if BITS.get(x, 64) < bits]
            if low or int(c[0][1][-2:]) < bits:
                ctx.violation("C17:host:get%d:width" % bits, "get%d returns only %s bits of the variable" % (bits, low and BITS[low[0]] or c[0][1][-2:]))
            if t[0] == "bin":
                ctx.violation("C17:host:get%d:value" % bits, "get%d returns %s, not the variable itself" % (bits, short(t, 60)))
        for v, ev, pc in run("set%d" % bits, [env, var, val]):
            c = [e for e in ev if e[0] == "var"]
            if len(c) != 1:
                ctx.violation("C17:host:set%d" % bits, "set%d stores its value %d times" % (bits, len(c)))
                continue
            if c[0][1] not in ("set_var_i32", "set_var_i64"):
                ctx.undecided.append("set%d stores its value in another form" % bits)
                continue
            if plain(c[0][2][1]) != var:
                ctx.violation("C17:host:set%d" % bits, "set%d writes variable %s" % (bits, short(c[0][2][1], 40)))
            cs, t = casts(c[0][2][2])
            low = [x for x in cs if BITS.get(x, 64) < bits]
            if t != val:
                ctx.violation("C17:host:set%d:value" % bits, "set%d stores %s, not its value" % (bits, short(t, 60)))
            elif low or int(c[0][1][-2:]) < bits:
                ctx.violation("C17:host:set%d:width" % bits, "set%d stores only %s bits of its value" % (bits, low and BITS[low[0]] or c[0][1][-2:]))
    n = 20
    for v, ev, pc in run("store160", [env, ptr, var]):
        c = [e for e in ev if e[0] == "var"]
        if len(c) != 1 or c[0][1] != "set_var_bytes":
            ctx.violation("C17:host:store160", "store160 stores its value %d times" % len(c))
            continue
        a = c[0][2]
        if plain(a[1]) != var:
            ctx.violation("C17:host:store160:var", "store160 writes variable %s" % short(a[1], 40))
        sl = [t for x in deep(a[2]) for t in subterms(x) if t[0] == "slice"]
        mem(ctx, "store160", "reads", sl, ptr, n)
    seen = 0
    for v, ev, pc in run("load160", [env, var, ptr]):
        for e in ev:
            if e[0] == "cell":
                seen += 1
                d, s = e[1]
                mem(ctx, "load160", "writes", [t for t in subterms(d) if t[0] == "slice"], ptr, n)
                src = [t for t in subterms(s) if callee(t) in N]
                if not src or plain(src[0][2][1]) != var:
                    ctx.violation("C17:host:load160:var", "load160 copies %s to memory, not the variable" % short(s, 60))
                if any(t[0] in ("rev", "skip") for t in subterms(s)) or any(t[0] in ("rev", "skip") for t in subterms(d)):
                    ctx.violation("C17:host:load160:order", "load160 copies the bytes in another order")
    if not seen:
        ctx.undecided.append("load160 writes to memory in another form")


def deep(t):
    yield t
    for x in subterms(t):
        if x[0] == "seq":
            for y in x[1]:
                yield from deep(y)


def mem(ctx, name, verb, sl, ptr, n):
    if not sl:
        ctx.undecided.append("%s accesses memory in another form" % name)
        return
    outer = max(sl, key=lambda t: len(str(t)))
    b, lo, k = flat(outer)
    if lo != {ptr: 1}:
        ctx.violation("C17:host:%s:mem" % name, "%s %s memory from %s on, not from its pointer" % (name, verb, form(lo)))
    elif k != {None: n}:
        ctx.violation("C17:host:%s:len" % name, "%s %s %s bytes of memory, not %d" % (name, verb, form(k), n))


def check(ctx):
    P = ctx.P
    variables(ctx, P)
    segmentation(ctx, P)
    layouts(ctx, P)
    integers(ctx, P)
    buffers(ctx, P)
    host(ctx, P)

"""Interprocedural dataflow over MIR with a disjunctive provenance domain.

Abstract state = (call string with program points, store, assumptions, ghost).
Values are provenance terms (hashable tuples):

  ('k', int, ty)              constant integer / bool / char
  ('str', s) ('bytes', b)     constant text / bytes
  ('agg', kind, variant, fs)  aggregate; kind = ('adt',path) | ('tuple',) | ('array',)
                              | ('closure',path,targs) | ('coroutine',path,targs)
  ('fn', path, targs)         function item
  ('ref', cell, proj)         pointer to an abstract cell
  ('sym', name)               unknown input
  ('fld', base, variant, f)   projection of an unknown
  ('call', name, args, site)  result of a call that is not looked into
  ('bin', op, a, b) ('un', op, a) ('trunc', ty, a) ('cast', ty, a)
  ('len', x) ('item', x) ('seq', elems, src) ...
  ('phi', cell, ...)          widened at a loop head
  ('upd', base, ((f,v),..))   unknown with some fields overwritten

The worklist visits each distinct abstract state once; values that keep changing
at a loop head are widened to phi terms, so the exploration is a fixpoint over
all paths (infeasible ones included unless a syntactic assumption excludes them).
"""
import re
import time
from collections import defaultdict

BITS = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "u128": 128, "i128": 128,
        "usize": 64, "isize": 64, "bool": 8, "char": 32}
UNIT = ("agg", ("tuple",), None, ())
TRUE = ("k", 1, "bool")
FALSE = ("k", 0, "bool")
OPT = ("adt", "core::option::Option")
RES = ("adt", "core::result::Result")
POLL = ("adt", "core::task::poll::Poll")
CF = ("adt", "core::ops::control_flow::ControlFlow")


def K(v, ty="usize"):
    return ("k", v, ty)


def some(v):
    return ("agg", OPT, 1, (v,))


NONE = ("agg", OPT, 0, ())


def ok(v):
    return ("agg", RES, 0, (v,))


def err(v):
    return ("agg", RES, 1, (v,))


def tup(*a):
    return ("agg", ("tuple",), None, tuple(a))


def is_signed(ty):
    return ty[0] == "i"


def wrapint(v, ty):
    b = BITS.get(ty)
    if not b:
        return v
    v &= (1 << b) - 1
    if is_signed(ty) and v >> (b - 1):
        v -= 1 << b
    return v


_norm_cache = {}


def norm(path):
    """Std path without generic arguments: core::option::Option::<T>::map -> core::option::Option::map"""
    r = _norm_cache.get(path)
    if r is not None:
        return r
    s = path
    s = re.sub(r"<impl ([^<>]*?)>", lambda m: m.group(1).replace(" ", "").replace("::", "."), s)
    out = []
    d = 0
    i = 0
    while i < len(s):
        if s.startswith("::<", i) and d == 0:
            d = 1
            i += 3
            continue
        c = s[i]
        if d:
            if c == "<":
                d += 1
            elif c == ">" and s[i - 1] != "-":
                d -= 1
            i += 1
            continue
        out.append(c)
        i += 1
    r = "".join(out)
    _norm_cache[path] = r
    return r


def mentions(t, sub):
    if t == sub:
        return True
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple) and mentions(x, sub):
                return True
    return False


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


class Frame:
    __slots__ = ("body", "targs", "bb", "ctx", "dest", "ret", "wrap", "key", "site")

    def __init__(self, body, targs, bb, ctx, dest, ret, wrap, site):
        self.body = body
        self.targs = targs
        self.bb = bb
        self.ctx = ctx
        self.dest = dest
        self.ret = ret
        self.wrap = wrap
        self.site = site
        self.key = (ctx, bb)

    def at(self, bb):
        return Frame(self.body, self.targs, bb, self.ctx, self.dest, self.ret, self.wrap, self.site)


class State:
    __slots__ = ("frames", "store", "pc", "ghost", "trace")

    def __init__(self, frames, store, pc, ghost, trace):
        self.frames = frames
        self.store = store
        self.pc = pc
        self.ghost = ghost
        self.trace = trace

    def copy(self):
        return State(self.frames, dict(self.store), dict(self.pc), self.ghost, self.trace)

    def key(self):
        return (tuple(f.key for f in self.frames), frozenset(self.store.items()), frozenset(self.pc.items()), self.ghost)

    def event(self, *e):
        self.trace = (e, self.trace)

    def events(self):
        out = []
        t = self.trace
        while t:
            out.append(t[0])
            t = t[1]
        out.reverse()
        return out


class Budget(Exception):
    pass


START = time.time()


class Rule:
    max_seconds = 240
    """Hooks of one analysis. Override what is needed."""
    max_depth = 24
    max_states = 60000
    follow_panics = False
    typed_shifts = False  # shifts carry the type they are done in
    const_more = False    # also treat `constant < len(X)` as a loop decision on X

    def opaque(self, path, body):
        return False

    def on_call(self, eng, st, path, targs, args, site):
        """None = default treatment; else list of (value | None for diverges, State)."""
        return None

    def on_branch(self, eng, st, term, val, site):
        """Called when a fork on `term` takes `val`. Return False to prune."""
        return True

    def on_more(self, eng, st, src, val, site):
        return True

    def on_return(self, eng, st, val):
        pass

    def on_panic(self, eng, st, what, site):
        pass

    def on_unwind(self, eng, st):
        """`st` continues after a caught panic."""

    def on_drop(self, eng, st, ty, val, site):
        return None


BOXLIKE = ("alloc::boxed::Box", "core::ptr::unique::Unique", "core::ptr::non_null::NonNull")


class Engine:
    def __init__(self, prog, rule):
        self.P = prog
        self.rule = rule
        self.ctxs = {}
        self.ctxinfo = []
        self.widen = {}
        self.arrlen = {}      # term -> fixed length known from its array type
        self.utf8 = set()     # terms known to be text
        self.ascii_ty = {}
        self.stats = defaultdict(int)
        self.inlined = set()
        self.opaque_calls = defaultdict(int)
        self.graph = None     # optional: list of edges (src key id, dst key id, events)
        self._promo = {}
        self._live = {}
        self.visited_sites = set()
        self.symty = {}       # unknown -> its type

    # ---------------------------------------------------------------- contexts
    def ctx(self, *k):
        i = self.ctxs.get(k)
        if i is None:
            i = len(self.ctxinfo)
            self.ctxs[k] = i
            self.ctxinfo.append(k)
        return i

    # ---------------------------------------------------------------- run
    def run(self, body, targs, args, ghost=None, pc=None, store=None):
        f = Frame(body, targs, 0, self.ctx(None, None, body.path), None, None, None, None)
        st = State((f,), dict(store or {}), dict(pc or {}), ghost, None)
        for i, a in enumerate(args):
            st.store[(f.ctx, i + 1)] = a
        self.explore([st])

    def explore(self, work):
        t0 = time.time()
        seen = set()
        ids = {}
        while work:
            st = work.pop()
            st = self.enter(st)
            if st is None:
                continue
            k = st.key()
            if k in seen:
                if self.graph is not None:
                    self.graph.link(st, ids[k])
                continue
            seen.add(k)
            if self.graph is not None:
                ids[k] = self.graph.node(st)
            self.stats["states"] += 1
            if self.stats["states"] > self.rule.max_states:
                raise Budget("more than %d abstract states" % self.rule.max_states)
            if time.time() - t0 > self.rule.max_seconds or time.time() - START > 720:
                raise Budget("exploration takes too long")
            for n in self.step(st):
                work.append(n)

    # -- entering a block: liveness pruning and widening --------------------
    def enter(self, st):
        f = st.frames[-1]
        live = self.live(f.body)
        lv = live[f.bb]
        preds, heads = self.heads(f.body)
        if preds[f.bb] > 1 or f.bb in heads:
            roots = set()
            for fr in st.frames[:-1]:
                roots.add(fr.ctx)
            keep = {}
            # mark
            work = []
            for c, v in st.store.items():
                if c[0] == f.ctx:
                    if c[1] in lv:
                        keep[c] = v
                        work.append(v)
                elif c[0] in roots or c[0] in ("obj", "g"):
                    keep[c] = v
                    work.append(v)
            while work:
                v = work.pop()
                if not isinstance(v, tuple):
                    continue
                if v and v[0] == "ref":
                    c = v[1]
                    if c not in keep and c in st.store:
                        keep[c] = st.store[c]
                        work.append(st.store[c])
                    # index terms inside proj are values too
                    continue
                for x in v:
                    if isinstance(x, tuple):
                        work.append(x)
            st.store = keep
        if f.bb in heads:
            wk = (tuple(fr.key for fr in st.frames), st.ghost if not self.rule_ghost_loops() else None)
            prev = self.widen.get(wk)
            if prev is None:
                self.widen[wk] = (dict(st.store), 1)
            else:
                pst, n = prev
                if n >= 2:
                    for c, v in list(st.store.items()):
                        if c in pst and pst[c] != v:
                            if not (isinstance(pst[c], tuple) and pst[c][0] == "phi"):
                                ph = self.widen_val(c, pst[c], v)
                            else:
                                ph = pst[c]
                            st.store[c] = ph
                            for s in subterms(ph):
                                if s[0] == "phi":
                                    for t in [t for t in st.pc if mentions(t, s)]:
                                        del st.pc[t]
                    merged = dict(pst)
                    merged.update(st.store)
                    self.widen[wk] = (merged, n + 1)
                    if n > 40:
                        self.stats["forced_joins"] += 1
                        st.pc = {}
                else:
                    # remember the newest so that differences show
                    self.widen[wk] = (dict(st.store), n + 1)
        return st

    def rule_ghost_loops(self):
        return False

    def widen_val(self, cell, a, b, path=()):
        """Structure-preserving widening."""
        if a == b:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == "agg" and b[0] == "agg" \
                and a[1:3] == b[1:3] and len(a[3]) == len(b[3]) and len(path) < 6:
            return ("agg", a[1], a[2], tuple(self.widen_val(cell, x, y, path + (i,)) for i, (x, y) in enumerate(zip(a[3], b[3]))))
        ea, eb = self.elems(a), self.elems(b)
        if ea is not None and eb is not None:
            return ("seq", ea | eb, None)
        return ("phi", cell, path)

    def elems(self, v):
        if isinstance(v, tuple) and v:
            if v[0] == "seq":
                return v[1]
            if v[0] == "agg" and v[1][0] == "array":
                return frozenset(v[3])
        return None

    def succs(self, t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x for _, x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [] if t[4] is None else [t[4]]
        if k == "assert":
            return [t[5]]
        return []       # a suspension point is not followed: awaiting yields the future's output

    def heads(self, body):
        if body._heads is None:
            n = len(body.blocks)
            preds = [0] * n
            for st, t, sp, cl in body.blocks:
                if cl:
                    continue
                for s in self.succs(t):
                    preds[s] += 1
            heads = set()
            color = [0] * n
            stack = [(0, iter(self.succs(body.blocks[0][1])))]
            color[0] = 1
            while stack:
                b, it = stack[-1]
                for s in it:
                    if color[s] == 0:
                        color[s] = 1
                        stack.append((s, iter(self.succs(body.blocks[s][1]))))
                        break
                    elif color[s] == 1:
                        heads.add(s)
                else:
                    color[b] = 2
                    stack.pop()
            body._heads = (preds, heads)
        return body._heads

    def live(self, body):
        if body._live is not None:
            return body._live
        n = len(body.blocks)
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        addr = set()

        def pl_use(p, u, d):
            if p[0] not in d:
                u.add(p[0])
            for e in p[1]:
                if e[0] == "[]" and e[1] not in d:
                    u.add(e[1])

        def op_use(o, u, d):
            if o[0] == "pl":
                pl_use(o[1], u, d)

        for i, (sts, t, sp, cl) in enumerate(body.blocks):
            u, d = use[i], dfn[i]
            for s in sts:
                if s[0] == "=":
                    r = s[2]
                    k = r[0]
                    if k in ("use", "repeat"):
                        op_use(r[1], u, d)
                    elif k == "ref":
                        pl_use(r[2], u, d)
                        if not any(e[0] == "*" for e in r[2][1]):
                            addr.add(r[2][0])
                    elif k == "cast":
                        op_use(r[2], u, d)
                    elif k == "bin":
                        op_use(r[2], u, d)
                        op_use(r[3], u, d)
                    elif k == "un":
                        op_use(r[2], u, d)
                    elif k == "discr":
                        pl_use(r[1], u, d)
                    elif k == "agg":
                        for o in r[2]:
                            op_use(o, u, d)
                    if s[1][1]:
                        pl_use(s[1], u, d)
                    else:
                        d.add(s[1][0])
                elif s[0] == "sd":
                    pl_use(s[1], u, d)
            k = t[0]
            if k == "switch":
                op_use(t[1], u, d)
            elif k == "drop":
                pass
            elif k == "call":
                op_use(t[1], u, d)
                for a in t[2]:
                    op_use(a, u, d)
                if t[3][1]:
                    pl_use(t[3], u, d)
                else:
                    d.add(t[3][0])
            elif k == "assert":
                op_use(t[1], u, d)
            elif k == "ret":
                if 0 not in d:
                    u.add(0)
        live = [set(x) for x in use]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                out = set()
                for s in self.succs(body.blocks[i][1]):
                    out |= live[s]
                new = use[i] | (out - dfn[i])
                if new != live[i]:
                    live[i] = new
                    ch = True
        body._live = live
        return live

    # ---------------------------------------------------------------- places
    def place(self, st, f, p):
        cell = (f.ctx, p[0])
        proj = ()
        for e in p[1]:
            if e[0] == "*":
                v = self.read(st, cell, proj)
                if v[0] == "ref":
                    cell, proj = v[1], v[2]
                elif v[0] in ("agg", "k", "str", "bytes", "seq"):
                    pass  # Box or by-value deref: same place
                else:
                    cell, proj = ("obj", v), ()
            elif e[0] == ".":
                if e[3] in BOXLIKE:
                    continue
                proj = proj + ((".", e[1], e[2]),)
            elif e[0] == "as":
                proj = proj + (("as", e[1], e[2]),)
            elif e[0] == "[]":
                iv = self.read(st, (f.ctx, e[1]), ())
                proj = proj + (("[]", iv),)
            elif e[0] == "[c]":
                proj = proj + (("[]", ("k", (-e[1] if e[2] else e[1]), "usize")),)
            elif e[0] == "[s]":
                proj = proj + (("[s]", e[1], e[2], e[3]),)
            else:
                proj = proj + (("?",),)
        return cell, proj

    def read(self, st, cell, proj):
        v = st.store.get(cell)
        if v is None:
            if cell[0] == "obj":
                v = cell[1]
            elif cell[0] == "g":
                v = ("static", cell[1])
            else:
                v = ("uninit", cell)
        variant = None
        for e in proj:
            if e[0] == "as":
                variant = (e[1], e[2])
                continue
            if e[0] == ".":
                v = self.field(v, variant, e[1], e[2])
            elif e[0] == "[]":
                v = self.index(st, v, e[1])
            elif e[0] == "[s]":
                if e[1] == 0 and e[3] and e[2] == 0:
                    pass
                else:
                    v = ("slice", v, K(e[1]), ("k", e[2], "end" if e[3] else "usize"))
            else:
                v = ("top",)
            variant = None
        return v

    def field(self, v, variant, i, name):
        if v[0] == "ref":
            # field of a pointer-like wrapper (Pin, NonNull...): transparent
            return v
        if v[0] == "agg":
            if v[2] is not None and variant is not None and v[2] != variant[0]:
                return ("never",)
            if i < len(v[3]):
                return v[3][i]
            return ("top",)
        if v[0] == "upd":
            for fk, fv in v[2]:
                if fk == (variant[1] if variant else None, name):
                    return fv
            v = v[1]
            return self.field(v, variant, i, name)
        if v[0] == "alt":
            return ("alt", frozenset(self.field(x, variant, i, name) for x in v[1]))
        return ("fld", v, variant[1] if variant else None, name)

    def index(self, st, v, i):
        if v[0] == "agg" and v[1][0] == "array" and i[0] == "k":
            j = i[1] if i[1] >= 0 else len(v[3]) + i[1]
            if 0 <= j < len(v[3]):
                return v[3][j]
        if v[0] == "bytes" and i[0] == "k" and 0 <= i[1] < len(v[1]):
            return ("k", v[1][i[1]], "u8")
        if v[0] == "agg" and v[1][0] == "array" and v[3] and all(x == v[3][0] for x in v[3]):
            return v[3][0]
        if v[0] == "seq":
            if len(v[1]) == 1:
                return next(iter(v[1]))
            return ("alt", v[1])
        if i[0] == "phi" or (i[0] == "fld" and i[1][0] == "item") or i[0] in ("item", "ctr"):
            return ("item", v)
        return ("idx", v, i)

    def write(self, st, cell, proj, val):
        st.store[cell] = self._upd(st, st.store.get(cell, cell[1] if cell[0] == "obj" else ("uninit", cell)), proj, val)

    def _upd(self, st, v, proj, val):
        if not proj:
            return val
        e = proj[0]
        variant = None
        rest = proj[1:]
        if e[0] == "as":
            variant = (e[1], e[2])
            if not rest:
                return v
            e = rest[0]
            rest = rest[1:]
        if e[0] == ".":
            if v[0] == "agg" and e[1] < len(v[3]):
                fs = list(v[3])
                fs[e[1]] = self._upd(st, fs[e[1]], rest, val)
                return ("agg", v[1], v[2], tuple(fs))
            old = self.field(v, variant, e[1], e[2])
            new = self._upd(st, old, rest, val)
            fk = (variant[1] if variant else None, e[2])
            if v[0] == "upd":
                d = dict(v[2])
                d[fk] = new
                return ("upd", v[1], tuple(sorted(d.items(), key=repr)))
            return ("upd", v, ((fk, new),))
        if e[0] == "[]":
            if v[0] == "agg" and e[1][0] == "k" and 0 <= e[1][1] < len(v[3]):
                fs = list(v[3])
                fs[e[1][1]] = self._upd(st, fs[e[1][1]], rest, val)
                return ("agg", v[1], v[2], tuple(fs))
            old = self.index(st, v, e[1])
            new = self._upd(st, old, rest, val)
            if v[0] == "agg" and v[1][0] == "array":
                return ("aggx", v[1], tuple(v[3]), ((e[1], new),))
            return ("updidx", v, e[1], new)
        return ("top",)

    # ---------------------------------------------------------------- values
    def const(self, st, f, o):
        _, ty, v, name = o
        ty = self.P.subst(ty, f.targs)
        k = v[0]
        if ty[0] == "fn":
            return ("fn", ty[1], ty[2])
        if k == "int":
            b = int(v[1])
            tn = ty[1] if ty[0] == "p" else (ty[1] if ty[0] == "adt" else "?")
            if ty[0] == "p":
                return ("k", wrapint(b, tn), tn)
            if name and name in self.P.bodies:
                return self.const_body(self.P.bodies[name], ())
            return ("k", b, tn)
        if k == "str":
            return ("str", v[1])
        if k == "bytes":
            return ("bytes", bytes.fromhex(v[1]))
        if k == "zst":
            if ty[0] == "tuple" and not ty[1]:
                return UNIT
            if ty[0] in ("closure",):
                return ("agg", ("closure", ty[1], ty[2]), None, ())
            if ty[0] == "adt":
                if name and name in self.P.bodies:
                    return self.const_body(self.P.bodies[name], ())
                return ("agg", ("adt", ty[1]), 0, ())
            return ("zst", ty)
        if k == "promoted":
            b = self.P.bodies.get(v[2])
            if b and v[1] < len(b.promoted):
                val = self.const_body(b.promoted[v[1]], f.targs)
                return self.static_ref(st, ("promo", v[2], v[1], f.targs), val)
            return ("top",)
        if k == "static":
            return ("ref", ("g", v[1]), ())
        if k == "param":
            a = self.P.subst(("param", v[1], v[2]), f.targs)
            if a and a[0] == "cv":
                return ("k", a[1], "usize")
            return ("cparam", v[2])
        if k == "cv":
            return ("k", wrapint(int(v[1]), ty[1] if ty[0] == "p" else "?"), ty[1] if ty[0] == "p" else "?")
        if k == "generic" and name:
            a = tuple(self.P.subst(x, f.targs) for x in v[1])
            b, a2, p = self.P.resolve(name, a)
            if b:
                return self.const_body(b, a2)
            return ("const", name, a)
        if name and name in self.P.bodies:
            return self.const_body(self.P.bodies[name], ())
        if k == "mem":
            return ("mem", v[1], name)
        return ("const", name or str(v), ty)

    def static_ref(self, st, key, val):
        c = ("g", key)
        if c not in st.store:
            st.store[c] = val
        return ("ref", c, ())

    def const_body(self, body, targs):
        key = (body.path, targs)
        if key in self._promo:
            return self._promo[key]
        self._promo[key] = ("const", body.path, None)
        res = []

        class R(Rule):
            max_states = 300

            def on_return(s, eng, st, val):
                # resolve refs to const-local cells by value
                res.append(eng.deep(st, val))

        e = Engine(self.P, R())
        try:
            e.run(body, targs, [])
        except (Budget, RecursionError):
            pass
        v = res[0] if len(res) == 1 else ("const", body.path, None)
        self._promo[key] = v
        return v

    def deep(self, st, v, n=0):
        """Copy a value with pointers replaced by what they point to."""
        if n > 12 or not isinstance(v, tuple) or not v:
            return v
        if v[0] == "ref":
            return self.deep(st, self.read(st, v[1], v[2]), n + 1)
        if v[0] == "agg":
            return ("agg", v[1], v[2], tuple(self.deep(st, x, n + 1) for x in v[3]))
        if v[0] == "seq":
            return ("seq", frozenset(self.deep(st, x, n + 1) for x in v[1]), v[2])
        if v[0] in ("k", "str", "bytes", "fn", "sym", "mem"):
            return v
        if v[0] == "upd":
            return ("upd", self.deep(st, v[1], n + 1), tuple((k, self.deep(st, x, n + 1)) for k, x in v[2]))
        if v[0] in ("fld",):
            return (v[0], self.deep(st, v[1], n + 1)) + v[2:]
        if v[0] in ("call",):
            return (v[0], v[1], tuple(self.deep(st, x, n + 1) for x in v[2])) + v[3:]
        return tuple(self.deep(st, x, n + 1) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in v)

    def deref(self, st, v):
        """Value behind any number of pointers."""
        n = 0
        while v[0] == "ref" and n < 20:
            v = self.read(st, v[1], v[2])
            n += 1
        if v[0] not in ("ref",) and ("obj", v) in st.store:
            return st.store[("obj", v)]
        return v

    def op(self, st, f, o):
        if o[0] == "pl":
            c, p = self.place(st, f, o[1])
            return self.read(st, c, p)
        if o[0] == "k":
            return self.const(st, f, o)
        return FALSE

    # types of operands ------------------------------------------------------
    def place_ty(self, f, p):
        t = self.P.subst(f.body.locals[p[0]], f.targs)
        variant = 0
        for e in p[1]:
            if t is None:
                return None
            if e[0] == "*":
                if t[0] in ("ref", "ptr"):
                    t = t[1]
                elif t[0] == "adt" and t[2]:
                    t = t[2][0]
                else:
                    return None
            elif e[0] == "as":
                variant = e[1]
                continue
            elif e[0] == ".":
                if t[0] == "tuple":
                    t = t[1][e[1]] if e[1] < len(t[1]) else None
                elif t[0] == "adt":
                    vs = self.P.variants(t[1])
                    if not vs or variant >= len(vs) or e[1] >= len(vs[variant][2]):
                        return None
                    t = self.P.subst(vs[variant][2][e[1]][1], t[2])
                elif t[0] in ("closure", "coroutine"):
                    up = t[2][-1] if t[2] else None
                    t = up[1][e[1]] if up and up[0] == "tuple" and e[1] < len(up[1]) else None
                else:
                    return None
            elif e[0] in ("[]", "[c]"):
                t = t[1] if t[0] in ("array", "slice") else None
            elif e[0] == "[s]":
                t = ("slice", t[1]) if t[0] in ("array", "slice") else None
            else:
                return None
            variant = 0
        return t

    def op_ty(self, f, o):
        if o[0] == "pl":
            return self.place_ty(f, o[1])
        if o[0] == "k":
            return self.P.subst(o[1], f.targs)
        return None

    # arithmetic ------------------------------------------------------------
    def bin(self, st, op, a, b, ty=None):
        ovf = False
        if op.endswith("WithOverflow"):
            base = op[:-len("WithOverflow")]
            r = self.bin(st, base, a, b, ty)
            if r[0] == "k" and a[0] == "k" and b[0] == "k":
                raw = {"Add": a[1] + b[1], "Sub": a[1] - b[1], "Mul": a[1] * b[1]}.get(base, r[1])
                return tup(r, TRUE if raw != r[1] else FALSE)
            return tup(r, ("ovf", base, a, b))
        if op.endswith("Unchecked"):
            op = op[:-len("Unchecked")]
        if a[0] == "k" and b[0] == "k":
            x, y = a[1], b[1]
            t = a[2]
            try:
                if op == "Add":
                    return ("k", wrapint(x + y, t), t)
                if op == "Sub":
                    return ("k", wrapint(x - y, t), t)
                if op == "Mul":
                    return ("k", wrapint(x * y, t), t)
                if op == "Div" and y:
                    return ("k", wrapint(abs(x) // abs(y) * (1 if x * y >= 0 else -1), t), t)
                if op == "Rem" and y:
                    return ("k", wrapint(x % y, t), t)
                if op == "BitAnd":
                    return ("k", wrapint(x & y, t), t)
                if op == "BitOr":
                    return ("k", wrapint(x | y, t), t)
                if op == "BitXor":
                    return ("k", wrapint(x ^ y, t), t)
                if op == "Shl":
                    return ("k", wrapint(x << y, t), t)
                if op == "Shr":
                    return ("k", wrapint(x >> y, t), t)
            except (ValueError, OverflowError):
                pass
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                r = {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op]
                return TRUE if r else FALSE
        if op in ("Eq", "Le", "Ge") and a == b and self.pure(a):
            return TRUE
        if op in ("Ne", "Lt", "Gt") and a == b and self.pure(a):
            return FALSE
        if op == "Gt":
            op, a, b = "Lt", b, a
        if op == "Ge":
            op, a, b = "Le", b, a
        if op in ("Lt", "Le", "Eq", "Ne"):
            uns = [x for x in (a, b) if x[0] == "k" and (x[2] or "?")[0] == "u"]
            if a[0] == "k" and a[2] != "discr":
                a = ("k", a[1], "int")
            if b[0] == "k" and b[2] != "discr":
                b = ("k", b[1], "int")
            if uns and (op, a) in (("Lt", ("k", 0, "int")), ("Le", ("k", 1, "int"))):
                return ("un", "Not", ("bin", "Eq", b, ("k", 0, "int")))
            if uns and (op, b) in (("Lt", ("k", 1, "int")), ("Le", ("k", 0, "int"))):
                return ("bin", "Eq", a, ("k", 0, "int"))
            if uns and (op, b) == ("Lt", ("k", 0, "int")) or uns and (op, a) == ("Le", ("k", 0, "int")) and False:
                return FALSE
            if op in ("Lt", "Le"):
                return ("bin", op, a, b)
        if op in ("Eq", "Ne") and a[0] == "k":
            a, b = b, a
        if op == "Ne":
            return ("un", "Not", ("bin", "Eq", a, b))
        if op in ("Add", "BitOr", "BitXor", "Sub", "Shl", "Shr") and b == ("k", 0, b[2] if b[0] == "k" else None) and b[0] == "k":
            return a
        if op in ("Add", "BitOr", "BitXor") and a[0] == "k" and a[1] == 0:
            return b
        if op == "Mul" and b[0] == "k" and b[1] == 1:
            return a
        if op == "Mul" and a[0] == "k" and a[1] == 1:
            return b
        if op == "BitAnd" and a[0] == "k" and b[0] != "k":
            a, b = b, a
        return ("bin", op, a, b)

    def pure(self, t):
        return t[0] not in ("top", "phi")

    def cast(self, st, a, fty, tty):
        if a[0] == "k" and tty[0] == "p":
            return ("k", wrapint(a[1], tty[1]), tty[1])
        if tty[0] == "p" and tty[1] in BITS:
            if fty and fty[0] == "p" and fty[1] in BITS:
                fb, tb = BITS[fty[1]], BITS[tty[1]]
                if tb >= fb and (not is_signed(fty[1]) or (is_signed(tty[1]) and tb >= fb)) and not (is_signed(tty[1]) and not is_signed(fty[1]) and tb == fb):
                    return a
                if tb == fb:
                    if a[0] == "cast" and a[1] == fty[1]:
                        # sign change there and back
                        inner_t = a[3]
                        if inner_t == tty[1]:
                            return a[2]
                    return ("cast", tty[1], a, fty[1])
                mx = (1 << (tb - (1 if is_signed(tty[1]) else 0))) - 1
                if self.bounded(st, a, mx):
                    return a
                return ("trunc", tty[1], a)
            if a[0] in ("discr",):
                return a
            return ("trunc", tty[1], a)
        return a

    def bounded(self, st, a, mx):
        for t, v in st.pc.items():
            if isinstance(t, tuple) and t[0] == "bin" and t[2] == a and t[3][0] == "k" and v == 1:
                if t[1] == "Le" and t[3][1] <= mx:
                    return True
                if t[1] == "Lt" and t[3][1] - 1 <= mx:
                    return True
            if isinstance(t, tuple) and t[0] == "bin" and t[3] == a and t[2][0] == "k" and v == 0:
                # not (k < a)  =>  a <= k ; not (k <= a) => a < k
                if t[1] == "Lt" and t[2][1] <= mx:
                    return True
                if t[1] == "Le" and t[2][1] - 1 <= mx:
                    return True
        if a[0] == "bin" and a[1] == "BitAnd" and a[3][0] == "k" and 0 <= a[3][1] <= mx:
            return True
        if a[0] == "bin" and a[1] == "Rem" and a[3][0] == "k" and a[3][1] - 1 <= mx:
            return True
        return False

    def rvalue(self, st, f, r):
        k = r[0]
        if k == "use":
            return self.op(st, f, r[1])
        if k == "ref":
            c, p = self.place(st, f, r[2])
            if c[0] == "obj" and not p and c not in st.store:
                return c[1] if True else ("ref", c, p)
            if c[0] == "obj" and c not in st.store and r[1] != "mut":
                return self.read(st, c, p)
            return ("ref", c, p)
        if k == "cast":
            a = self.op(st, f, r[2])
            ck = r[1]
            tty = self.P.subst(r[3], f.targs)
            if ck.startswith("IntToInt"):
                return self.cast(st, a, self.op_ty(f, r[2]), tty)
            if "Unsize" in ck:
                ft = self.op_ty(f, r[2])
                if ft and ft[0] in ("ref", "ptr") and ft[1] and ft[1][0] == "array" and ft[1][2] and ft[1][2][0] == "cv":
                    self.arrlen[self.deref(st, a)] = ft[1][2][1]
                return a
            if ck.startswith(("Float", "IntToFloat")):
                return ("fcast", ck, a)
            return a
        if k == "bin":
            a = self.op(st, f, r[2])
            b = self.op(st, f, r[3])
            v = self.bin(st, r[1], a, b)
            if self.rule.typed_shifts and v[0] == "bin" and v[1] in ("Shl", "Shr"):
                t = self.op_ty(f, r[2])
                if t and t[0] == "p":
                    return (v[1].lower(), t[1], v[2], v[3])
            return v
        if k == "un":
            a = self.op(st, f, r[2])
            if r[1] == "Not":
                if a[0] == "k":
                    if a[2] == "bool":
                        return FALSE if a[1] else TRUE
                    return ("k", wrapint(~a[1], a[2]), a[2])
                if a[0] == "un" and a[1] == "Not":
                    return a[2]
                return ("un", "Not", a)
            if r[1] == "Neg" and a[0] == "k":
                return ("k", wrapint(-a[1], a[2]), a[2])
            if r[1] == "PtrMetadata":
                return self.length(st, self.deref(st, a))
            return ("un", r[1], a)
        if k == "discr":
            c, p = self.place(st, f, r[1])
            return self.discr(st, self.read(st, c, p))
        if k == "agg":
            ops = tuple(self.op(st, f, o) for o in r[2])
            a = r[1]
            if a[0] == "adt":
                if a[6] is not None:
                    return ("agg", ("adt", a[1]), a[2], ops)
                return ("agg", ("adt", a[1]), a[2], ops)
            if a[0] in ("closure", "coroutine", "coroutineclosure"):
                return ("agg", (a[0], a[1], tuple(self.P.subst(x, f.targs) for x in a[2])), None, ops)
            if a[0] == "rawptr":
                return ops[0]
            if a[0] == "array":
                return ("agg", ("array",), None, ops)
            return ("agg", ("tuple",), None, ops)
        if k == "repeat":
            v = self.op(st, f, r[1])
            n = self.P.subst(r[2], f.targs)
            if n and n[0] == "cv" and n[1] <= 64:
                return ("agg", ("array",), None, (v,) * n[1])
            return ("repeat", v, n[1] if n and n[0] == "cv" else ("cparam", n))
        if k == "tls":
            return ("ref", ("g", r[1]), ())
        return ("top",)

    def discr(self, st, v):
        v = self.deref(st, v)
        if v[0] == "agg" and v[1][0] == "adt":
            vs = self.P.variants(v[1][1])
            if vs and v[2] is not None and v[2] < len(vs):
                return ("k", vs[v[2]][1], "discr")
            return ("k", v[2] or 0, "discr")
        if v[0] == "k":
            return ("k", v[1], "discr")
        while v[0] == "upd":
            v = v[1]
        return ("discr", v)

    def type_of(self, t):
        """Type of an access path into a typed unknown, or None."""
        if t in self.symty:
            return self.symty[t]
        if t[0] in ("mut", "upd"):
            return self.type_of(t[1])
        if t[0] == "fld":
            ty = self.type_of(t[1])
            while ty and ty[0] in ("ref", "ptr"):
                ty = ty[1]
            if not ty:
                return None
            if ty[0] == "tuple":
                return ty[1][int(t[3])] if t[3].isdigit() and int(t[3]) < len(ty[1]) else None
            if ty[0] == "adt":
                for nm, dv, fs in self.P.variants(ty[1]) or ():
                    if t[2] is None or t[2] == nm:
                        for fn, ft, vis in fs:
                            if fn == t[3]:
                                return self.P.subst(ft, ty[2])
        if t[0] == "item":
            ty = self.type_of(t[1])
            while ty and ty[0] in ("ref", "ptr"):
                ty = ty[1]
            if ty and ty[0] in ("array", "slice"):
                return ty[1]
            if ty and ty[0] == "adt" and ty[1].endswith(("::Vec", "::HashSet", "::BTreeSet", "::IndexSet", "::VecDeque")) and ty[2]:
                return ty[2][0]
        return None

    def length(self, st, v):
        v = self.deref(st, v)
        ty = self.type_of(v)
        while ty and ty[0] in ("ref", "ptr"):
            ty = ty[1]
        if ty and ty[0] == "array" and ty[2]:
            if ty[2][0] == "cv":
                return K(ty[2][1])
            if ty[2][0] == "param":
                return ("cparam", ty[2][2])
        if v[0] == "agg" and v[1][0] == "array":
            return K(len(v[3]))
        if v[0] == "aggx":
            return K(len(v[2]))
        if v[0] == "bytes":
            return K(len(v[1]))
        if v[0] == "str":
            return K(len(v[1].encode()))
        if v in self.arrlen:
            n = self.arrlen[v]
            return n if isinstance(n, tuple) else K(n)
        if v[0] == "tobytes":
            return K(v[2])
        if v[0] == "repeat" and isinstance(v[2], int):
            return K(v[2])
        if v[0] == "seq" and v[2] is not None:
            return v[2]
        if v[0] == "slice":
            a, b = v[2], v[3]
            if a[0] == "k" and b[0] == "k" and b[2] != "end":
                return K(b[1] - a[1])
            if a == K(0) and b[0] != "k":
                return b
        return ("len", v)

    # ---------------------------------------------------------------- steps
    def step(self, st):
        f = st.frames[-1]
        sts, t, sp, cl = f.body.blocks[f.bb]
        st = st.copy()
        for s in sts:
            if s[0] == "=":
                v = self.rvalue(st, f, s[2])
                c, p = self.place(st, f, s[1])
                self.write(st, c, p, v)
            elif s[0] == "sd":
                c, p = self.place(st, f, s[1])
                v = self.read(st, c, p)
                if v[0] == "agg":
                    self.write(st, c, p, ("agg", v[1], s[2], v[3]))
        k = t[0]
        if k == "goto":
            return [self.goto(st, t[1])]
        if k == "switch":
            return self.switch(st, f, t, sp)
        if k == "ret":
            return self.ret(st, f)
        if k == "drop":
            r = self.do_drop(st, f, t, sp)
            if r is not None:
                return r
            return [self.goto(st, t[2])]
        if k == "call":
            return self.call(st, f, t, sp)
        if k == "assert":
            return self.assert_(st, f, t, sp)
        return []

    def goto(self, st, bb):
        st.frames = st.frames[:-1] + (st.frames[-1].at(bb),)
        return st

    def do_drop(self, st, f, t, sp):
        ty = self.P.subst(t[3], f.targs)
        c, p = self.place(st, f, t[1])
        self.rule.on_drop(self, st, ty, self.read(st, c, p), (f, sp))
        return None

    def known(self, st, term):
        """Constant value of a branch term under the assumptions, or None."""
        if term[0] == "k":
            return term[1]
        v = st.pc.get(term)
        if v is not None and not isinstance(v, frozenset):
            return v
        if term[0] == "un" and term[1] == "Not":
            x = self.known(st, term[2])
            if x is not None:
                return 0 if x else 1
        if term[0] == "bin":
            op, a, b = term[1], term[2], term[3]
            if op == "Eq" and b[0] == "k":
                x = st.pc.get(a)
                if x is not None:
                    if isinstance(x, frozenset):
                        if b[1] in x:
                            return 0
                    else:
                        return 1 if x == b[1] else 0
            if op in ("Lt", "Le", "Eq"):
                ka = a[1] if a[0] == "k" else self._pcint(st, a)
                kb = b[1] if b[0] == "k" else self._pcint(st, b)
                if ka is not None and kb is not None:
                    return int({"Lt": ka < kb, "Le": ka <= kb, "Eq": ka == kb}[op])
            if op == "Lt":
                # a<b known false if b<=a known true; a<b false if b<a true
                if st.pc.get(("bin", "Le", b, a)) == 1 or st.pc.get(("bin", "Lt", b, a)) == 1 or st.pc.get(("bin", "Eq", a, b)) == 1:
                    return 0
                if st.pc.get(("bin", "Le", b, a)) == 0:
                    return 1
            if op == "Le":
                if st.pc.get(("bin", "Lt", b, a)) == 1:
                    return 0
                if st.pc.get(("bin", "Lt", b, a)) == 0 or st.pc.get(("bin", "Lt", a, b)) == 1 or st.pc.get(("bin", "Eq", a, b)) == 1:
                    return 1
            if op == "Eq":
                if st.pc.get(("bin", "Lt", a, b)) == 1 or st.pc.get(("bin", "Lt", b, a)) == 1:
                    return 0
            if op == "Eq" and b[0] == "k" and a[0] == "un" and a[1] == "Not" and b[2] == "bool":
                x = self.known(st, a[2])
                if x is not None:
                    return int((0 if x else 1) == b[1])
            if op == "BitAnd":
                x, y = self.known(st, a), self.known(st, b)
                if x == 0 or y == 0:
                    return 0
                if x is not None and y is not None:
                    return x & y
            if op == "BitOr":
                x, y = self.known(st, a), self.known(st, b)
                if x == 1 and y in (0, 1) or y == 1 and x in (0, 1):
                    return 1
                if x is not None and y is not None:
                    return x | y
            if op == "Eq" and a[0] in ("str", "bytes") and b[0] == a[0]:
                return int(a[1] == b[1])
        return None

    def _pcint(self, st, t):
        v = st.pc.get(t)
        return v if isinstance(v, int) else None

    def assume(self, st, term, val):
        """Record term == val (val int, or frozenset of excluded values). False if contradictory."""
        if term[0] == "k":
            if isinstance(val, frozenset):
                return term[1] not in val
            return term[1] == val
        if term[0] == "un" and term[1] == "Not" and not isinstance(val, frozenset):
            return self.assume(st, term[2], 0 if val else 1)
        if isinstance(val, frozenset) and term[0] in ("bin", "un", "ovf") and len(val) == 1 and term[1:2] and (
                term[0] in ("un", "ovf") or term[1] in ("Eq", "Lt", "Le")):
            return self.assume(st, term, 0 if 1 in val else 1)
        old = st.pc.get(term)
        if old is not None:
            if isinstance(old, frozenset):
                if isinstance(val, frozenset):
                    st.pc[term] = old | val
                    return True
                if val in old:
                    return False
            else:
                if isinstance(val, frozenset):
                    return old not in val
                return old == val
        st.pc[term] = val
        if term[0] == "bin" and term[1] == "Eq" and term[3][0] == "k":
            if val == 1:
                return self.assume(st, term[2], term[3][1])
            return self.assume(st, term[2], frozenset([term[3][1]]))
        if term[0] == "bin" and term[1] == "BitAnd" and val == 1:
            if not self.assume(st, term[2], 1):
                return False
            return self.assume(st, term[3], 1)
        if term[0] == "bin" and term[1] == "BitOr" and val == 0:
            if not self.assume(st, term[2], 0):
                return False
            return self.assume(st, term[3], 0)
        return True

    def forget(self, st, sub):
        for t in [t for t in st.pc if mentions(t, sub)]:
            del st.pc[t]
        for c in [c for c in st.store if c[0] == "obj" and mentions(c[1], sub)]:
            del st.store[c]

    def more_src(self, term):
        """Loop conditions `i < len(X)`: the collection X being walked."""
        if term[0] == "un" and term[1] == "Not":
            r = self.more_src(term[2])
            return None if r is None else (r[0], not r[1])
        if term[0] == "bin" and term[1] == "Lt":
            i, n = term[2], term[3]
            if self.ctr_like(i) and n[0] != "k" and not self.ctr_like(n):
                return (self.count_src(n), True)
        if term[0] == "bin" and term[1] == "Le":
            n, i = term[2], term[3]
            if self.ctr_like(i) and n[0] != "k" and not self.ctr_like(n):
                return (self.count_src(n), False)
        return None

    def const_more(self, term):
        if term[0] == "un" and term[1] == "Not":
            r = self.const_more(term[2])
            return None if r is None else (r[0], not r[1])
        if term[0] == "bin" and term[1] == "Lt" and term[2][0] == "k" and term[3][0] == "len":
            return (term[3][1], True)
        if term[0] == "bin" and term[1] == "Le" and term[3][0] == "k" and term[2][0] == "len":
            return (term[2][1], False)
        if term[0] == "bin" and term[1] == "Eq" and term[3][0] == "k" and term[3][1] == 0 and term[2][0] == "len":
            return (term[2][1], False)
        return None

    def ctr_like(self, t):
        return t[0] == "phi" or (t[0] == "bin" and t[1] == "Add" and self.ctr_like(t[2]) and t[3][0] == "k") or (
            t[0] == "k" and t[1] == 0 and False)

    def count_src(self, n):
        if n[0] == "len":
            return n[1]
        return ("count", n)

    def switch(self, st, f, t, sp):
        term = self.op(st, f, t[1])
        term = self.deref(st, term)
        kn = self.known(st, term)
        if kn is not None:
            for v, bb in t[2]:
                if v == kn or (term[0] == "k" and wrapint(v, term[2]) == kn and term[2] in BITS):
                    return [self.goto(st, bb)]
            return [self.goto(st, t[3])]
        out = []
        if term[0] == "alt" or term[0] == "discr" and term[1][0] == "alt":
            pass
        ms = self.more_src(term)
        cm = self.const_more(term) if self.rule.const_more and ms is None else None
        excluded = st.pc.get(term)
        excluded = excluded if isinstance(excluded, frozenset) else frozenset()
        vals = []
        for v, bb in t[2]:
            if v in excluded:
                continue
            vals.append((v, bb))
        tt = t[4]
        boolish = tt[0] == "p" and tt[1] == "bool"
        other_dead = f.body.blocks[t[3]][1][0] == "unreachable" and not f.body.blocks[t[3]][0]
        arms = [(v, bb) for v, bb in vals]
        if not other_dead:
            if boolish and len(t[2]) == 1:
                arms.append((1 - t[2][0][0], t[3]))
            else:
                arms.append((frozenset(v for v, _ in t[2]), t[3]))
        # exhaustive discriminant switch: refine `otherwise` to the single remaining variant
        for v, bb in arms:
            n = st.copy()
            if ms is not None and not isinstance(v, frozenset):
                val = bool(v) == ms[1]
                if not self.rule.on_more(self, n, ms[0], val, (f, sp)):
                    continue
            else:
                if not self.assume(n, term, v):
                    continue
                if cm is not None and not isinstance(v, frozenset):
                    if not self.rule.on_more(self, n, cm[0], bool(v) == cm[1], (f, sp)):
                        continue
                if not self.rule.on_branch(self, n, term, v, (f, sp)):
                    continue
            out.append(self.goto(n, bb))
        return out

    def assert_(self, st, f, t, sp):
        cond = self.op(st, f, t[1])
        exp = 1 if t[2] else 0
        kn = self.known(st, cond)
        if kn is None or kn != exp:
            what = ("assert", t[3])
            x = t[4]
            vals = ()
            if t[3] == "bounds":
                vals = (self.op(st, f, x[0]), self.op(st, f, x[1]))
            elif t[3] == "overflow":
                vals = (x[0], self.op(st, f, x[1]), self.op(st, f, x[2]))
            n = st.copy()
            n.event("panic", t[3], sp)
            self.rule.on_panic(self, n, ("assert", t[3], vals), (f, sp))
            if kn is not None:
                return []
            if not (cond[0] == "bin" and self.more_src(cond)):
                self.assume(st, cond, exp)
        return [self.goto(st, t[5])]

    def ret(self, st, f):
        v = self.read(st, (f.ctx, 0), ())
        if v[0] == "uninit":
            v = UNIT
        if len(st.frames) == 1:
            st.event("return", v)
            self.rule.on_return(self, st, v)
            return []
        caller = st.frames[-2]
        if f.wrap:
            v = f.wrap(self, st, v)
        # pointers into the dying frame are replaced by their value
        v = self.escape(st, v, f.ctx)
        for c in [c for c in st.store if c[0] == f.ctx]:
            del st.store[c]
        st.frames = st.frames[:-1]
        c, p = f.dest
        self.write(st, c, p, v)
        if f.ret is None:
            return []
        return [self.goto(st, f.ret)]

    def escape(self, st, v, ctx, n=0):
        if not isinstance(v, tuple) or n > 8:
            return v
        if v and v[0] == "ref":
            if v[1][0] == ctx:
                return self.escape(st, self.read(st, v[1], v[2]), ctx, n + 1)
            return v
        if v and v[0] in ("agg",):
            return ("agg", v[1], v[2], tuple(self.escape(st, x, ctx, n + 1) for x in v[3]))
        if v and v[0] in ("seq",):
            return ("seq", frozenset(self.escape(st, x, ctx, n + 1) for x in v[1]), v[2])
        if v and v[0] in ("iter", "itmap", "call", "fld", "itx"):
            return tuple(self.escape(st, x, ctx, n + 1) if isinstance(x, tuple) else x for x in v)
        if isinstance(v, tuple) and v and isinstance(v[0], tuple):
            return tuple(self.escape(st, x, ctx, n + 1) for x in v)
        return v

    # ---------------------------------------------------------------- calls
    def call(self, st, f, t, sp):
        fv = t[5]
        fty = self.P.subst(fv, f.targs)
        args = [self.op(st, f, a) for a in t[2]]
        dest = self.place(st, f, t[3])
        if fty[0] == "fn":
            path, targs = fty[1], fty[2]
        else:
            v = self.deref(st, self.op(st, f, t[1]))
            if v[0] == "fn":
                path, targs = v[1], v[2]
            elif v[0] == "agg" and v[1][0] == "closure":
                return self.invoke(st, f, v, args, dest, t[4], t[7])
            else:
                path, targs = "$indirect", ()
                args = [v] + args
        return self.call_path(st, f, path, targs, args, dest, t[4], t[7], f.bb, t)

    def call_path(self, st, f, path, targs, args, dest, target, sp, sitekey, term=None, nohook=False):
        P = self.P
        body, rt, rpath = P.resolve(path, targs)
        site = (f, sp)
        self.visited_sites.add((f.body.path, sitekey))
        if not nohook:
            r = self.rule.on_call(self, st, rpath, rt, args, site)
            if r is None and rpath != path:
                r = self.rule.on_call(self, st, path, targs, args, site)
            if r is not None:
                return self.outcomes(r, f, dest, target)
        if body is None or body.crate is None:
            from . import models
            m = models.lookup(self, rpath)
            if m is not None:
                r = m(self, st, f, rpath, rt, args, dest, target, sp, sitekey)
                if r is not None:
                    return r
        if body is not None and body.kind in ("fn", "closure", "coroutine"):
            if not self.rule.opaque(rpath, body) and len(st.frames) < self.rule.max_depth \
                    and sum(1 for x in st.frames if x.body is body) < 2:
                return [self.push(st, f, body, rt, args, dest, target, sitekey, sp)]
        if target is None:
            n = st.copy()
            n.event("panic", rpath, sp)
            self.rule.on_panic(self, n, ("call", rpath, tuple(args)), site)
            return []
        return self.opaque_call(st, f, rpath, rt, args, dest, target, sp, sitekey)

    def outcomes(self, r, f, dest, target):
        out = []
        for v, s in r:
            if v is None:
                continue
            if isinstance(v, list):
                out.extend(v)
                continue
            if target is None:
                continue
            self.write(s, dest[0], dest[1], v)
            s.frames = s.frames[:-1] + (f.at(target),)
            out.append(s)
        return out

    def done(self, st, f, dest, target, v):
        return self.outcomes([(v, st)], f, dest, target)

    def push(self, st, f, body, targs, args, dest, target, sitekey, sp, wrap=None):
        self.inlined.add(body.path)
        self.stats["inlined_calls"] += 1
        ctx = self.ctx(f.ctx, sitekey, body.path)
        for c in [c for c in st.store if c[0] == ctx]:
            del st.store[c]
        nf = Frame(body, targs, 0, ctx, dest, target, wrap, sp)
        for i, a in enumerate(args):
            st.store[(ctx, i + 1)] = a
        st.frames = st.frames[:-1] + (f, nf)
        return st

    def opaque_call(self, st, f, path, targs, args, dest, target, sp, sitekey, pure=False):
        self.opaque_calls[path] += 1
        da = tuple(self.snap(st, a) for a in args)
        if pure:
            v = ("call", path, da, None)
        else:
            v = ("call", path, da, (f.ctx, sitekey))
            self.forget(st, v)
            # anything reachable through a &mut argument may change
            term = f.body.blocks[f.bb][1]
            if term[0] == "call":
                for i, a in enumerate(args):
                    if a[0] == "ref" and self.mut_arg(f, term, i):
                        old = self.read(st, a[1], a[2])
                        if old[0] not in ("iter",):
                            self.write(st, a[1], a[2], ("mut", self.strip_mut(old), path, (f.ctx, sitekey)))
        return self.done(st, f, dest, target, v)

    def strip_mut(self, v):
        return v[1] if v[0] == "mut" else v

    def mut_arg(self, f, term, i):
        if i >= len(term[2]):
            return False
        ty = self.op_ty(f, term[2][i])
        return bool(ty and ty[0] in ("ref", "ptr") and ty[2] == "mut")

    def snap(self, st, v):
        """Value as recorded inside opaque terms: pointers replaced by contents."""
        return self.deep(st, v)

    def invoke(self, st, f, fn, args, dest, target, sp, sitekey=None, wrap=None):
        """Call a function value with the given argument list."""
        sitekey = f.bb if sitekey is None else sitekey
        fn = self.deref(st, fn)
        if fn[0] == "fn":
            return self.call_path(st, f, fn[1], fn[2], list(args), dest, target, sp, sitekey)
        if fn[0] == "agg" and fn[1][0] == "closure":
            body = self.P.bodies.get(fn[1][1])
            if body is not None and sum(1 for x in st.frames if x.body is body) < 2 and len(st.frames) < self.rule.max_depth + 8:
                r = self.rule.on_call(self, st, body.path, fn[1][2], [fn] + list(args), (f, sp))
                if r is not None:
                    return self.outcomes(r, f, dest, target)
                return [self.push(st, f, body, fn[1][2], [fn] + list(args), dest, target, sitekey, sp, wrap)]
        v = ("call", "$indirect", (self.snap(st, fn),) + tuple(self.snap(st, a) for a in args), (f.ctx, sitekey))
        self.forget(st, v)
        return self.done(st, f, dest, target, v)


def where(site):
    f, sp = site
    return "%s (%s)" % (f.body.path, sp)

"""Encoder/decoder agreement: product of an encoder's write automaton with its decoder.

The encoder is analysed once with an unknown `self`; what it writes becomes a finite
automaton whose edges carry the written terms, the loop decisions and the facts that hold
there.  The decoder is then analysed against every path of that automaton: each read is
answered with the next written term.  The decoder must neither fail, nor leave bytes, nor
build a value that differs from `self`.
"""
from .eng import *
from .prog import tyname

CODEC = "svm_codec::codec::Codec"
ENC, DEC = CODEC + "::encode", CODEC + "::decode"
WEXT, REXT = "svm_codec::ext::WriteExt", "svm_codec::ext::ReadExt"
WTY = ("adt", "$Writer", ())
RTY = ("adt", "$Reader", ())
W, R, SELF = ("sym", "w"), ("sym", "r"), ("sym", "self")


class Refine(Exception):
    def __init__(self, *types):
        self.types = [t for t in types if t is not None]


def nsrc(s):
    """Name of the collection behind a loop."""
    while True:
        if s[0] == "call" and s[1] in ("values", "keys", "iter", "sorted") and s[2]:
            s = s[2][0]
        elif s[0] == "count" and s[1][0] == "len":
            s = s[1][1]
        elif s[0] == "mut":
            s = s[1]
        else:
            return s


class Lts:
    def __init__(self):
        self.pc = []
        self.edges = []     # node -> [(event | None, node)]
        self.exits = set()
        self.sites = []

    def new(self, pc, site):
        self.pc.append(pc)
        self.edges.append([])
        self.sites.append(site)
        return len(self.pc) - 1

    # engine hooks
    def _split(self, st):
        ev = []
        t = st.trace
        while t and t[0][0] != "@":
            ev.append(t[0])
            t = t[1]
        ev.reverse()
        return (t[0][1] if t else None), ev

    def _link(self, parent, ev, to, st):
        cur = parent
        ev = [e for e in ev if e[0] in ("w", "enc", "more")]
        for i, e in enumerate(ev):
            nxt = to if i == len(ev) - 1 else self.new(dict(st.pc), e[-1])
            self.edges[cur].append((e, nxt))
            cur = nxt
        if not ev:
            self.edges[cur].append((None, to))

    def node(self, st):
        p, ev = self._split(st)
        i = self.new(dict(st.pc), None)
        if p is not None:
            self._link(p, ev, i, st)
        st.trace = (("@", i), None)
        return i

    def link(self, st, i):
        p, ev = self._split(st)
        if p is not None:
            self._link(p, ev, i, st)

    def exit(self, st):
        p, ev = self._split(st)
        i = self.new(dict(st.pc), None)
        self._link(p, ev, i, st)
        self.exits.add(i)

    def finish(self):
        n = len(self.pc)
        pred = [[] for _ in range(n)]
        for a in range(n):
            for e, b in self.edges[a]:
                pred[b].append(a)
        good = set(self.exits)
        work = list(good)
        while work:
            x = work.pop()
            for p in pred[x]:
                if p not in good:
                    good.add(p)
                    work.append(p)
        self.edges = [[(e, b) for e, b in self.edges[a] if b in good] if a in good else [] for a in range(n)]
        # loops that write nothing impose no order on the decoder
        comp = self.sccs(n)
        writes, loops = set(), set()
        for a in range(n):
            for e, b in self.edges[a]:
                if e and e[0] in ("w", "enc") and comp[a] == comp[b]:
                    writes.add(comp[a])
        for a in range(n):
            for e, b in self.edges[a]:
                if e and e[0] == "more" and comp[a] in writes:
                    loops.add((nsrc(e[1]), e[3]))
        out = []
        for a in range(n):
            l = []
            for e, b in self.edges[a]:
                if e and e[0] == "more" and (nsrc(e[1]), e[3]) not in loops:
                    e = None
                l.append((e, b))
            out.append(l)
        self.edges = out
        self.srcs = {nsrc(e[1]) for l in out for e, _ in l if e and e[0] == "more"}
        self.nwrites = sum(1 for l in out for e, _ in l if e and e[0] in ("w", "enc"))

    def sccs(self, n):
        idx, low, comp, stack, on = {}, {}, [None] * n, [], set()
        c = [0, 0]
        for root in range(n):
            if root in idx:
                continue
            work = [(root, 0)]
            while work:
                v, i = work[-1]
                if i == 0:
                    idx[v] = low[v] = c[0]
                    c[0] += 1
                    stack.append(v)
                    on.add(v)
                if i < len(self.edges[v]):
                    work[-1] = (v, i + 1)
                    w = self.edges[v][i][1]
                    if w not in idx:
                        work.append((w, 0))
                    elif w in on:
                        low[v] = min(low[v], idx[w])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == idx[v]:
                        while True:
                            w = stack.pop()
                            on.discard(w)
                            comp[w] = c[1]
                            if w == v:
                                break
                        c[1] += 1
        return comp


class EncRule(Rule):
    max_states = 20000
    const_more = True

    def __init__(self, lts, atomic):
        self.lts = lts
        self.atomic = atomic
        self.encoded = set()

    def on_call(self, eng, st, path, targs, args, site):
        if path == ENC and len(args) > 1:
            if eng.deref(st, args[1]) == W and self.atomic(targs[0]):
                s = st.copy()
                self.encoded.add(targs[0])
                s.event("enc", targs[0], eng.snap(st, args[0]), where(site))
                return [(UNIT, s)]
        if path in (WEXT + "::write_byte", WEXT + "::write_bytes") and eng.deref(st, args[0]) == W:
            s = st.copy()
            v = eng.snap(st, args[1])
            if path.endswith("byte"):
                s.event("w", v, K(1), "byte", where(site))
            else:
                L = eng.length(st, v)
                if L != K(0):
                    s.event("w", v, L, "bytes", where(site))
            return [(UNIT, s)]
        return None

    def on_more(self, eng, st, src, val, site):
        st.event("more", src, val, where(site))
        return True

    def on_return(self, eng, st, val):
        self.lts.exit(st)


def encoder(P, body, targs, atomic, selfty, pc=None, opaque=None):
    lts = Lts()
    rule = EncRule(lts, atomic)
    eng = Engine(P, rule)
    eng.graph = lts
    eng.symty[SELF] = selfty
    if opaque:
        rule.opaque = opaque
    eng.run(body, targs, [SELF, W], pc=pc)
    lts.finish()
    return lts, eng, rule


class DecRule(Rule):
    """ghost = (lts node, rest of a partly consumed chunk, tokens)"""
    max_states = 60000
    const_more = True

    def __init__(self, prog, lts, atomic, enc_eng, check):
        self.P = prog
        self.lts = lts
        self.atomic = atomic
        self.enc = enc_eng
        self.check = check
        self.problems = {}
        self.reads = 0
        self.oks = 0
        self.decoded = set()

    def problem(self, key, detail, st=None):
        self.problems.setdefault(key, detail)

    # ---- moving along the encoder
    def closure(self, eng, st):
        """[(event|'exit', node after, State)] reachable without consuming output."""
        node, rest, toks = st.ghost
        if rest is not None:
            return [(("w",) + rest, node, st.copy())]
        out = []
        seen = set()
        work = [(node, st.copy())]
        first = True
        while work:
            n, s = work.pop()
            k = (n, s.ghost, frozenset(s.pc.items()))
            if k in seen:
                continue
            seen.add(k)
            if n in self.lts.exits:
                out.append((("exit",), n, s))
            for e, m in self.lts.edges[n]:
                s2 = s.copy()
                if e is not None and e[0] == "more":
                    src, val = nsrc(e[1]), e[2]
                    if val:
                        eng.forget(s2, ("item", src))
                    if not self.token(s2, "e", src, val, e[3]):
                        continue
                if not self.merge(eng, s2, self.lts.pc[m]):
                    continue
                if e is None or e[0] == "more":
                    work.append((m, s2))
                else:
                    out.append((e, m, s2))
        return out

    def token(self, s, who, src, val, site):
        node, rest, toks = s.ghost
        other = "d" if who == "e" else "e"
        for i, (w, x, v, p) in enumerate(toks):
            if x == src and w == other:
                if v != val:
                    return False
                s.ghost = (node, rest, toks[:i] + toks[i + 1:])
                return True
            if x == src and w == who and p != site:
                return v == val     # the same question asked again before anything was read
        if sum(1 for w, x, v, p in toks if x == src and w == who) >= 3:
            return False
        s.ghost = (node, rest, toks + ((who, src, val, site),))
        return True

    def merge(self, eng, s, pc):
        for t, v in pc.items():
            kn = eng.known(s, t)
            if kn is not None and not isinstance(v, frozenset) and kn != v:
                return False
            if kn is not None and isinstance(v, frozenset) and kn in v:
                return False
            if not eng.assume(s, t, v):
                return False
        return True

    def take(self, eng, st, n, what, site, peek=False):
        """Consume n bytes: [(bytes term | ('eof',), State)]"""
        out = []
        work = [((), 0, st)]
        while work:
            got, have, s = work.pop()
            for e, m, s2 in self.closure(eng, s):
                toks = s2.ghost[2]
                if e[0] == "exit":
                    out.append((("eof",), s2))
                    continue
                if e[0] == "enc":
                    raise Refine(e[1])
                v, L, kind = e[1], e[2], e[3]
                if not got and L == n:
                    s2.ghost = (m, None, toks)
                    out.append(((v,) if kind == "byte" else v, s2) if False else (("chunk", v, kind), s2))
                    continue
                if L[0] != "k" or n[0] != "k":
                    if got or True:
                        self.problem(("length", str(what)), "%s asks for %s bytes where %s wrote %s" % (
                            where(site), short(n), e[4], short(L)))
                        continue
                need = n[1] - have
                pieces = byte_list(v, L[1], kind)
                if L[1] <= need:
                    s2.ghost = (m, None, toks)
                    g2, h2 = got + tuple(pieces), have + L[1]
                else:
                    s2.ghost = (m, (("agg", ("array",), None, tuple(pieces[need:])), K(L[1] - need), "bytes", e[4]), toks)
                    g2, h2 = got + tuple(pieces[:need]), have + need
                if h2 == n[1]:
                    out.append((("chunk", join_bytes(g2), "byte" if n[1] == 1 and False else "bytes"), s2))
                else:
                    work.append((g2, h2, s2))
        return out

    def as_bytes(self, eng, c):
        v = c[1]
        if c[2] == "byte":
            return ("agg", ("array",), None, (v,))
        return v

    def eof(self):
        return err(("agg", ("adt", "svm_codec::error::ParseError"), None, ()))

    def on_call(self, eng, st, path, targs, args, site):
        if path == DEC and args and eng.deref(st, args[0]) == R and self.atomic(targs[0]):
            T = targs[0]
            self.decoded.add(T)
            out = []
            for e, m, s2 in self.closure(eng, st):
                if e[0] == "enc" and same_ty(e[1], T):
                    s2.ghost = (m, None, s2.ghost[2])
                    self.reads += 1
                    out.append((ok(e[2]), s2))
                elif e[0] == "exit":
                    out.append((err(("eof",)), s2))
                elif e[0] == "enc":
                    raise Refine(T, e[1])
                else:
                    raise Refine(T)
            return out
        if not path.startswith(REXT + "::"):
            return None
        m = path[len(REXT) + 2:]
        if not args or eng.deref(st, args[0]) != R:
            return None
        self.reads += 1
        out = []
        if m == "read_byte" or m == "peek_byte":
            for c, s2 in self.take(eng, st, K(1), m, site):
                if m == "peek_byte":
                    s2.ghost = st.ghost
                if c[0] == "eof":
                    out.append((self.eof() if m == "read_byte" else NONE, s2))
                    continue
                v = c[1]
                if c[2] != "byte":
                    v = eng.index(s2, v, K(0))
                out.append((ok(v) if m == "read_byte" else some(v), s2))
            return out
        if m == "read_bytes":
            n = eng.snap(st, args[1])
            if n == K(0):
                return [(ok(("agg", ("array",), None, ())), st.copy())]
            for c, s2 in self.take(eng, st, n, m, site):
                out.append((self.eof() if c[0] == "eof" else ok(self.as_bytes(eng, c)), s2))
            return out
        if m == "read_fill":
            n = eng.length(st, args[1])
            for c, s2 in self.take(eng, st, n, m, site):
                if c[0] == "eof":
                    out.append((self.eof(), s2))
                    continue
                b = self.as_bytes(eng, c)
                from .models import place_of
                if args[1][0] == "ref":
                    eng.write(s2, *place_of(eng, s2, args[1]), b)
                out.append((ok(UNIT), s2))
            return out
        return None

    def on_more(self, eng, st, src, val, site):
        src = nsrc(src)
        st.event("more", src, val)
        if src in self.lts.srcs:
            if val:
                eng.forget(st, ("item", src))
            return self.token(st, "d", src, val, where(site))
        return True

    def on_panic(self, eng, st, what, site):
        if what[1] == "overflow" and what[2] and counter(what[2]):
            return
        self.problem(("panic", site[0].body.path, what[1]), "decoder panics on encoded input: %s in %s" % (what[1], where(site)))

    def on_return(self, eng, st, val):
        v = eng.deref(st, val)
        if v[0] == "agg" and v[1] == RES and v[2] == 1:
            self.problem(("error", short(eng.snap(st, v[3][0]))), "decoder reports an error on encoded input (%s)" % short(eng.snap(st, v[3][0])))
            return
        ends = self.closure(eng, st)
        left = [e for e in ends if e[0][0] != "exit"]
        if left:
            self.problem(("left", left[0][0][-1].split(" (")[0]), "decoder stops before the bytes written at %s" % left[0][0][-1])
        if not [e for e in ends if e[0][0] == "exit"]:
            return
        self.oks += 1
        r = v[3][0] if v[0] == "agg" and v[1] == RES else v
        for s in [e[2] for e in ends if e[0][0] == "exit"]:
            why = self.check(eng, s, eng.snap(s, r))
            if why:
                self.problem(("value", why), "decoded value differs from the encoded one: %s" % why)


def counter(v):
    """word-sized counter plus a constant: cannot wrap in practice"""
    return v[0] == "Add" and eng_ctr(v[1]) and v[2][0] == "k" and v[2][2] in ("usize", "u64", "i64", "u128", "isize")


def eng_ctr(t):
    return t[0] in ("phi", "ctr") or (t[0] == "bin" and t[1] == "Add" and eng_ctr(t[2]) and t[3][0] == "k") or (t[0] == "k")


def short(t, n=120):
    return pretty(t)[:n]


def pretty(t):
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k == "k":
        return str(t[1])
    if k == "sym":
        return t[1]
    if k == "fld":
        return "%s.%s%s" % (pretty(t[1]), (t[2] + ".") if t[2] else "", t[3])
    if k == "len":
        return "len(%s)" % pretty(t[1])
    if k == "item":
        return "each(%s)" % pretty(t[1])
    if k == "agg":
        nm = t[1][1].split("::")[-1] if t[1][0] == "adt" else t[1][0]
        return "%s%s(%s)" % (nm, "" if t[2] in (None, 0) else "#%s" % t[2], ", ".join(pretty(x) for x in t[3]))
    if k == "call":
        return "%s(%s)" % (t[1].split("::")[-1], ", ".join(pretty(x) for x in t[2]))
    if k in ("trunc", "cast"):
        return "%s as %s" % (pretty(t[2]), t[1])
    if k == "bin":
        return "(%s %s %s)" % (pretty(t[2]), t[1], pretty(t[3]))
    if k == "discr":
        return "variant(%s)" % pretty(t[1])
    if k == "phi":
        return "loop-var"
    if k == "str":
        return repr(t[1])
    return str(k) + "(" + ", ".join(pretty(x) for x in t[1:] if isinstance(x, (tuple, str, int))) + ")"


def same_ty(a, b):
    return a == b


def byte_list(v, n, kind):
    if kind == "byte":
        return [v]
    if v[0] == "agg" and v[1][0] == "array":
        return list(v[3])
    if v[0] == "bytes":
        return [("k", x, "u8") for x in v[1]]
    return [("byteof", v, i) for i in range(n)]


def join_bytes(g):
    g = tuple(g)
    if g and all(x[0] == "byteof" and x[1] == g[0][1] for x in g) and [x[2] for x in g] == list(range(len(g))):
        b = g[0][1]
        if b[0] == "tobytes" and b[2] == len(g):
            return b
    return ("agg", ("array",), None, g)

"""C18: what the ABI encodes, it decodes."""
from ..eng import *
from ..codec import short

RULE = ("for every ABI type: the bytes that Encoder::encode pushes on each of its paths, fed symbolically to Decoder::decode_value and to the conversion from Value, give back the very value and leave the cursor just behind them; "
        "byte_size is their number and max_byte_size no less; a prefix of them and a byte that is no marker never decode to a value; tuples and CallData::next_N keep order; the buffer appends what is pushed")
EXPLAIN = ("Path-sensitive dataflow over the bodies of svm_abi_encoder, svm_abi_decoder, svm_sdk_types::value and svm_sdk_std::vec: the encoder is followed with a symbolic value of each type, collecting the symbolic bytes of every path, "
           "and the decoder is followed over these bytes; terms are compared after normalising byte splitting, joining and integer casts with the interval facts of the path. No execution.")
FLOORS = {"types": 12, "encodings": 30, "decodings": 30, "sizes": 30, "truncations": 60, "markers": 150, "tuples": 6, "arrays": 11}
ASSUME = ["num_traits' min_value, max_value, zero and as_ behave as documented", "raw pointers to a slice read what the slice holds", "array elements are represented by u8, bool and Address"]

ENC = "svm_abi_encoder::traits::Encoder::encode"
PUSH = "svm_abi_encoder::traits::Push::push"
SIZE = "svm_abi_encoder::traits::ByteSize::"
DEC = "svm_abi_decoder::decoder::Decoder::decode_value"
VALUE = ("adt", "svm_sdk_types::value::Value", ())
ADDR = ("adt", "svm_sdk_types::blob::Address", ())
AMOUNT = ("adt", "svm_sdk_types::amount::Amount", ())
OPT = "svm_sdk_std::option::Option"
RESULT = "svm_sdk_std::result::Result"
W = ("param", 9, "W")
UNIT = ("agg", ("tuple",), None, ())
INTS = ("i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64")
ELEMSIZE = 24
CUR, CD, BUF = ("obj", "cursor"), ("obj", "calldata"), ("obj", "buffer")


def p(n):
    return ("p", n)


def span(ty):
    b = BITS[ty]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if is_signed(ty) else (0, (1 << b) - 1)


class Facts:
    """Intervals of integer terms under a path's facts."""

    def __init__(self, types):
        self.types = {("sym", "tail%d" % i): "u8" for i in range(24)}
        self.types[("sym", "tail")] = "u8"
        self.types.update(types)

    def base(self, t):
        if t[0] == "k" and isinstance(t[1], int):
            return t[1], t[1]
        if t[0] in ("cast", "trunc"):
            return span(t[1])
        if t in self.types:
            return span(self.types[t])
        if t[0] == "idx" and t[1][0] == "tobytes":
            return 0, 255
        return None

    def interval(self, t, pc):
        r = self.base(t)
        if r is None:
            return None
        lo, hi = r
        for c, v in pc.items():
            if c == t:
                if isinstance(v, frozenset):
                    while lo in v:
                        lo += 1
                    while hi in v:
                        hi -= 1
                elif isinstance(v, int):
                    lo, hi = max(lo, v), min(hi, v)
            elif c[0] == "bin" and c[1] in ("Le", "Lt", "Ge", "Gt", "Eq", "Ne") and t in (c[2], c[3]) and isinstance(v, int):
                op, a, b = c[1], c[2], c[3]
                o = b if a == t else a
                if o[0] != "k" or not isinstance(o[1], int):
                    continue
                if b == t:
                    op = {"Le": "Ge", "Lt": "Gt", "Ge": "Le", "Gt": "Lt"}.get(op, op)
                if not v:
                    op = {"Le": "Gt", "Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Eq": "Ne", "Ne": "Eq"}[op]
                k = o[1]
                if op == "Le":
                    hi = min(hi, k)
                elif op == "Lt":
                    hi = min(hi, k - 1)
                elif op == "Ge":
                    lo = max(lo, k)
                elif op == "Gt":
                    lo = max(lo, k + 1)
                elif op == "Eq":
                    lo, hi = max(lo, k), min(hi, k)
                elif lo == k:
                    lo += 1
                elif hi == k:
                    hi -= 1
        return lo, hi

    def subjects(self, c):
        if c[0] == "bin" and c[1] in ("Le", "Lt", "Ge", "Gt", "Eq", "Ne"):
            return [x for x in (c[2], c[3]) if x[0] != "k"]
        return [c]

    def known(self, c):
        """The fact c is one about the interval of a known term."""
        return all(self.base(x) is not None for x in self.subjects(c)) and (c[0] != "bin" or any(x[0] == "k" for x in c[2:4]))

    def feasible(self, pc, c):
        for x in self.subjects(c):
            r = self.interval(x, pc)
            if r is not None and r[0] > r[1]:
                return False
        return True


NB = 72


def extend(bs, ty):
    """The low bits of a type's width, extended the way the type is."""
    n = BITS[ty]
    return bs[:n] + [bs[n - 1] if is_signed(ty) else 0] * (NB - n)


def bits(t, F):
    """Where each bit of an integer term comes from: 0, 1, (symbol, index) or "?" (two's complement, least significant first)."""
    k = t[0]
    if k == "k" and isinstance(t[1], int):
        return [(t[1] >> i) & 1 for i in range(NB)]
    if t in F.types:
        return extend([(t, i) for i in range(BITS[F.types[t]])], F.types[t])
    if k in ("cast", "trunc"):
        return extend(bits(t[2], F), t[1])
    if k == "idx" and t[1][0] == "tobytes" and t[2][0] == "k" and t[2][1] < t[1][2]:
        o, n, v = t[1][1], t[1][2], t[1][3]
        w = n - 1 - t[2][1] if o == "be" else t[2][1]
        return bits(v, F)[8 * w:8 * w + 8] + [0] * (NB - 8)
    if k == "frombytes" and t[3][0] == "agg" and t[3][1] == ("array",):
        xs = t[3][3] if t[1] == "le" else t[3][3][::-1]
        bs = []
        for x in xs:
            bs += bits(x, F)[:8]
        return extend((bs + [0] * NB)[:NB], t[2])
    if k in ("shl", "shr") and t[3][0] == "k" and 0 <= t[3][1] < 64:
        a, n = bits(t[2], F), t[3][1]
        if k == "shl":
            return extend([0] * n + a[:NB - n], t[1])
        return a[n:] + [a[-1]] * n
    if k == "bin" and t[1] in ("BitOr", "BitAnd", "BitXor", "Add"):
        a, b = bits(t[2], F), bits(t[3], F)
        out = []
        for x, y in zip(a, b):
            if x == "?" or y == "?":
                out.append(0 if t[1] == "BitAnd" and 0 in (x, y) else "?")
            elif t[1] == "BitAnd":
                out.append(0 if 0 in (x, y) else y if x == 1 else x if y == 1 else x if x == y else "?")
            elif x == 0 or y == 0:
                out.append(y if x == 0 else x)
            elif t[1] == "Add":
                return ["?"] * NB
            elif t[1] == "BitOr":
                out.append(1 if 1 in (x, y) else x if x == y else "?")
            else:
                out.append(0 if x == y else "?")
        return out
    return ["?"] * NB


def zeros(F, pc):
    """Bits that the path's facts make zero."""
    out = set()
    for c in pc:
        for x in F.subjects(c):
            r = F.interval(x, pc)
            if r is not None and r[0] >= 0:
                out |= {b for b in bits(x, F)[r[1].bit_length():] if isinstance(b, tuple)}
    return out


def same(t, v, ty, F, pc):
    """True / False / None: t is v (of the integer type ty)."""
    z = zeros(F, pc)
    a = [0 if x in z else x for x in bits(t, F)]
    b = [0 if x in z else x for x in bits(v, F)]
    if "?" in a:
        return None
    return a == b


def norm(t, F, pc):
    return t, ()


class Abi(Rule):
    max_states = 20000
    max_depth = 40
    max_seconds = 40
    typed_shifts = True

    def __init__(self, F):
        self.F = F
        self.rets = []
        self.panics = []
        self.odd = []
        self.allocs = {}
        self.blind = 0

    def on_call(self, eng, st, path, targs, args, site):
        last = path.split("::")[-1]
        t0 = targs[0] if targs else None
        if path.startswith("num_traits::"):
            if t0 and t0[0] == "p" and t0[1] in BITS and last in ("min_value", "max_value", "zero", "one"):
                v = {"min_value": span(t0[1])[0], "max_value": span(t0[1])[1], "zero": 0, "one": 1}[last]
                return [(("k", v, t0[1]), st)]
            if last == "as_" and len(targs) > 1 and t0 and t0[0] == "p" and targs[1] and targs[1][0] == "p":
                return [(eng.cast(st, eng.snap(st, args[0]), t0, targs[1]), st)]
        if path in ("core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::le", "core::cmp::PartialOrd::gt", "core::cmp::PartialOrd::ge") and len(args) == 2:
            a, b = eng.snap(st, args[0]), eng.snap(st, args[1])
            if a[0] == "k" and b[0] == "k":
                return [(("k", int({"lt": a[1] < b[1], "le": a[1] <= b[1], "gt": a[1] > b[1], "ge": a[1] >= b[1]}[last]), "bool"), st)]
        if path == PUSH or path.endswith("traits::Push>::push"):
            if args[0] == ("sym", "w") or eng.snap(st, args[0]) == ("sym", "w"):
                n = st.copy()
                n.ghost = (st.ghost[0] + (eng.snap(st, args[1]),), st.ghost[1])
                return [(UNIT, n)]
        r = self.memory(eng, st, path, last, targs, args)
        if r is not None:
            return r
        if last in ("get", "get_unchecked") and len(args) == 2 and path.startswith("core::slice"):
            a, r = eng.snap(st, args[0]), eng.snap(st, args[1])
            w = window(a, r)
            if w is not None:
                if last == "get":
                    w = ("agg", OPTION, 0, ()) if w is False else ("agg", OPTION, 1, (w,))
                if w is not False:
                    return [(w, st)]
        if last == "index" and len(args) == 2:
            w = window(eng.snap(st, args[0]), eng.snap(st, args[1]))
            if w:
                return [(w, st)]
        if last == "index_mut" and len(args) == 2 and args[0][0] == "ref":
            a, r = eng.snap(st, args[0]), eng.snap(st, args[1])
            w = window(a, r)
            if w and w[0] == "agg" and w[1] == ("array",) and r[0] == "agg":
                lo = r[3][0][1] if str(r[1][1]).split("::")[-1] in ("Range", "RangeFrom") else 0
                self.blind += 1
                return [(("mwin", args[0], lo, len(w[3])), st)]
        if last in ("copy_from_slice", "clone_from_slice") and len(args) == 2:
            src = eng.snap(st, args[1])
            d = args[0]
            if d[0] == "ref" and eng.snap(st, d)[0] == "mwin":
                d = eng.snap(st, d)
            if d[0] == "ref" and eng.snap(st, d)[0] == "agg" and eng.snap(st, d)[1] == ("array",):
                d = ("mwin", d, 0, len(eng.snap(st, d)[3]))
                self.blind += 1
            if d[0] == "mwin" and src[0] == "agg" and src[1] == ("array",):
                a = eng.snap(st, d[1])
                if len(src[3]) != d[3]:
                    self.blind -= 1
                    self.panics.append(("copy_from_slice", where(site), dict(st.pc)))
                    return [(None, st)]
                self.blind -= 1
                eng.write(st, d[1][1], d[1][2], ("agg", ("array",), None, a[3][:d[2]] + src[3] + a[3][d[2] + d[3]:]))
                return [(UNIT, st)]
        if last in ("from_raw_parts", "slice_from_raw_parts") and len(args) == 2:
            a, n = eng.snap(st, args[0]), eng.snap(st, args[1])
            if n[0] == "k" and a[0] == "call" and a[1].split("::")[-1] == "as_ptr" and a[2][0][0] == "agg" and a[2][0][1] == ("array",):
                xs = a[2][0][3]
                if n[1] <= len(xs):
                    return [(("agg", ("array",), None, xs[:n[1]]), st)]
                self.odd.append("reads %d bytes through a pointer to %d" % (n[1], len(xs)))
            elif n[0] == "k" and a[0] == "sym" and n[1] <= 64:
                return [(("agg", ("array",), None, tuple(("idx", ("mem", a), ("k", i, "usize")) for i in range(n[1]))), st)]
        return None

    def memory(self, eng, st, path, last, targs, args):
        """Raw memory: cells named by the pointer and the number of elements added to it; loops over known items unrolled."""
        if path == "core::iter::traits::iterator::Iterator::next" and st.ghost[1] < 16:
            st.ghost = (st.ghost[0], st.ghost[1] + 1)
            return None
        if path == "$enumpair":
            return [(("agg", ("tuple",), None, (("k", st.ghost[1] - 1, "usize"), args[1])), st)]
        if path == "svm_sdk_alloc::alloc":
            st.ghost = (st.ghost[0], st.ghost[1] + 1)
            m = ("sym", "mem%d" % st.ghost[1])
            n = eng.snap(st, args[0])
            if n[0] == "k":
                self.allocs[m] = n[1]
            return [(m, st)]
        if last in ("as_mut_ptr", "as_ptr") and len(args) == 1:
            a = eng.snap(st, args[0])
            if a[0] == "sym" and a[1].startswith("mem"):
                return [(a, st)]
        if last == "size_of":
            return [(("k", ELEMSIZE, "usize"), st)]
        if path.startswith("core::ptr") and last in ("add", "offset", "wrapping_add") and len(args) == 2:
            a, k = eng.snap(st, args[0]), eng.snap(st, args[1])
            if k[0] == "k":
                b, o = (a[1], a[2][1]) if a[0] == "pel" else (a, 0)
                return [(("pel", b, ("k", o + k[1], "usize")), st)]
        if path.startswith("core::ptr") and last in ("write", "read") and args:
            a = eng.snap(st, args[0])
            if a[0] == "pel" or a[0] == "sym" and a[1].startswith("mem"):
                a = a if a[0] == "pel" else ("pel", a, ("k", 0, "usize"))
                if last == "write":
                    if a[1] in self.allocs and (a[2][1] + 1) * ELEMSIZE > self.allocs[a[1]]:
                        self.odd.append("writes item %d of a buffer of %d" % (a[2][1], self.allocs[a[1]] // ELEMSIZE))
                    st.store[("obj", a)] = eng.snap(st, args[1])
                    return [(UNIT, st)]
                return [(st.store.get(("obj", a), ("sym", "unset")), st)]
        if "maybe_uninit::MaybeUninit" in path:
            if last == "uninit" and targs and targs[0] and targs[0][0] == "array" and targs[0][2][0] == "cv":
                return [(("agg", ("array",), None, (("sym", "unset"),) * targs[0][2][1]), st)]
            if last in ("new", "assume_init") and len(args) == 1:
                return [(args[0], st)]
        if last in ("from_raw_parts", "from_raw_parts_mut") and len(args) == 2 and path.startswith("core::slice"):
            a, n = eng.snap(st, args[0]), eng.snap(st, args[1])
            b, o = (a[1], a[2][1]) if a[0] == "pel" else (a, 0)
            if b[0] == "sym" and b[1].startswith("mem") and n[0] == "k" and n[1] <= 64:
                return [(("agg", ("array",), None, tuple(st.store.get(("obj", ("pel", b, ("k", o + i, "usize"))), ("sym", "unset")) for i in range(n[1]))), st)]
        return None

    def on_branch(self, eng, st, term, val, site):
        pc = dict(st.pc)
        pc[term] = val
        return self.F.feasible(pc, term)

    def on_return(self, eng, st, val):
        self.rets.append((eng.snap(st, val), dict(st.pc), st.ghost[0], {c: eng.snap(st, v) for c, v in st.store.items() if c[0] == "obj"}))

    def on_panic(self, eng, st, what, site):
        pc = dict(st.pc)
        if what[0] == "assert" and any(isinstance(x, tuple) and x[0] != "k" for x in what[2]):
            pc[("unknown", where(site))] = 1
        self.panics.append((what, where(site), pc))


OPTION = ("adt", "core::option::Option")


def window(a, r):
    """The part of an array of known items that a range of constants selects; False = out of range; None = unknown."""
    if a[0] != "agg" or a[1] != ("array",):
        return None
    n = len(a[3])
    if r[0] == "k":
        return a[3][r[1]] if r[1] < n else False
    if r[0] != "agg" or any(x[0] != "k" for x in r[3]):
        return None
    nm = str(r[1][1]).split("::")[-1]
    ks = [x[1] for x in r[3]]
    lo, hi = {"Range": lambda: ks, "RangeFrom": lambda: (ks[0], n), "RangeTo": lambda: (0, ks[0]), "RangeFull": lambda: (0, n)}.get(nm, lambda: (None, None))()
    if lo is None:
        return None
    if lo > hi or hi > n:
        return False
    return ("agg", ("array",), None, tuple(a[3][lo:hi]))


class Done(Exception):
    pass


class Check:
    def __init__(self, ctx):
        self.ctx = ctx
        self.P = ctx.P
        self.unknown = set()

    def run(self, path, targs, args, F, store=None, pc=None, what=""):
        b, rt, rp = self.P.resolve(path, targs)
        if b is None:
            self.ctx.undecided.append("no body for %s %s" % (path, what))
            return None
        r = Abi(F)
        e = Engine(self.P, r)
        for t, ty in F.types.items():
            e.symty[t] = p(ty)
        try:
            e.run(b, rt, args, store=store, pc=pc, ghost=((), 0))
        except Budget as x:
            self.ctx.undecided.append("%s %s: %s" % (path, what, x))
            return None
        if r.blind:
            self.ctx.undecided.append("%s %s: writes in another form" % (path, what))
            return None
        self.ctx.inc("abstract_states", e.stats["states"])
        return r

    # ------------------------------------------------------------ one value
    def encode(self, name, ty, value, F, mem=None):
        """[(bytes, pc)] of Encoder::encode of the value, and the sizes agree."""
        V = ("obj", "value")
        r = self.run(ENC, (ty, W), [("ref", V, ()), ("sym", "w")], F, store={**(mem or {}), V: value}, what=name)
        if r is None:
            return []
        for w, at, pc in r.panics:
            if all(F.known(c) for c in pc):
                self.ctx.violation("C18:encode:%s:panic" % name, "encoding %s can panic at %s" % (name, at))
            else:
                self.ctx.undecided.append("encoding %s may panic at %s" % (name, at))
        out = []
        for v, pc, g, store in r.rets:
            self.ctx.inc("encodings")
            if not all(F.known(x) for x in pc):
                self.ctx.undecided.append("encoding %s depends on %s" % (name, short([x for x in pc if not F.known(x)][0], 80)))
                continue
            out.append((g, pc))
        if not out:
            self.ctx.undecided.append("%s is never encoded" % name)
        return out

    def sizes(self, name, ty, value, encs, F):
        V = ("obj", "value")
        m = self.run(SIZE + "max_byte_size", (ty,), [], F, what=name)
        mx = None
        if m is not None and len(m.rets) == 1 and m.rets[0][0][0] == "k":
            mx = m.rets[0][0][1]
        elif m is not None:
            self.ctx.undecided.append("max_byte_size of %s" % name)
        for g, pc in encs:
            r = self.run(SIZE + "byte_size", (ty,), [("ref", V, ())], F, store={V: value}, pc=pc, what=name)
            if r is None:
                return
            for w, at, q in r.panics:
                if all(F.known(c) for c in q):
                    self.ctx.violation("C18:size:%s:panic" % name, "byte_size of %s panics at %s" % (name, at))
            for v, q, _, _ in r.rets:
                self.ctx.inc("sizes")
                if v[0] != "k":
                    self.ctx.undecided.append("byte_size of %s is %s" % (name, short(v, 60)))
                elif v[1] != len(g):
                    self.ctx.violation("C18:size:%s" % name, "byte_size of %s is %d where encoding it takes %d bytes" % (name, v[1], len(g)))
            if mx is not None and len(g) > mx:
                self.ctx.violation("C18:max:%s" % name, "max_byte_size of %s is %d but encoding it can take %d bytes" % (name, mx, len(g)))

    def cursor(self, items, n=0):
        return {CUR: ("agg", ("adt", "svm_abi_decoder::cursor::Cursor"), 0, (None,) * 2)}

    def decode(self, items, F, pc, what, path=DEC):
        """Outcomes of decode_value over the items: list of (kind, value, offset, pc)."""
        names = [f[0] for f in self.P.adts["svm_abi_decoder::cursor::Cursor"]["variants"][0][2]]
        if sorted(names) != ["bytes", "offset"]:
            raise Done("the cursor has other fields")
        store = dict(BUFSTORE(items))
        fs = {"bytes": ("ref", BUF, ()), "offset": ("k", 0, "usize")}
        store[CUR] = ("agg", ("adt", "svm_abi_decoder::cursor::Cursor"), 0, tuple(fs[n] for n in names))
        r = self.run(path, (), [("agg", ("adt", "svm_abi_decoder::decoder::Decoder"), 0, ()), ("ref", CUR, ())], F, store=store, pc=pc, what=what)
        out = []
        if r is None:
            return None
        for v, q, _, st in r.rets:
            c = st.get(CUR)
            off = dict(zip(names, c[3])).get("offset") if c and c[0] == "agg" else None
            if v[0] == "agg" and v[1] == ("adt", RESULT):
                kind = self.variant(RESULT, v[2])
                out.append((kind, v[3][0] if v[3] else UNIT, off, q, st))
            else:
                out.append(("?", v, off, q, st))
        for w, at, q in r.panics:
            out.append(("panic", at, None, q, None))
        self.odd = r.odd
        return out

    def variant(self, adt, i):
        return self.P.adts[adt]["variants"][i or 0][0]

    def convert(self, ty, val, F, pc, mem):
        """From<Value> for ty."""
        r = self.run("core::convert::From::from", (ty, VALUE), [val], F, pc=pc, store={k: v for k, v in mem.items() if k[1][0] == "pel"}, what="conversion to " + tyname(ty))
        return r

    def sure(self, F, pc0, q):
        """The facts that led here beyond pc0 are ones about known terms."""
        return all(c in pc0 or F.known(c) for c in q)

    def roundtrip(self, name, ty, value, encs, F, eq):
        tail = tuple(("sym", "tail%d" % i) for i in range(3))
        for g, pc in encs:
            outs = self.decode(g + tail, F, pc, name)
            if outs is None:
                continue
            self.ctx.inc("decodings")
            for m in self.odd:
                self.ctx.violation("C18:decode:%s:odd" % name, "decoding %s %s" % (name, m))
            for kind, v, off, q, mem in outs:
                if not self.sure(F, pc, q):
                    self.ctx.undecided.append("decoding %s depends on %s" % (name, short([c for c in q if c not in pc and not F.known(c)][0], 80)))
                    continue
                sz = "%d bytes" % len(g)
                if kind in ("panic", "Err"):
                    self.ctx.violation("C18:decode:%s:%s" % (name, kind), "%s encoded in %s %s" % (name, sz, "makes the decoder panic at %s" % v if kind == "panic" else "isn't decoded but refused"))
                    continue
                if kind != "Ok":
                    self.ctx.undecided.append("decoding %s gives %s" % (name, short(v, 60)))
                    continue
                if off is None or off[0] != "k":
                    self.ctx.undecided.append("decoding %s leaves the cursor at %s" % (name, short(off or ("?",), 60)))
                elif off[1] != len(g):
                    self.ctx.violation("C18:decode:%s:offset" % name, "%s is encoded in %s but decoding it takes %d" % (name, sz, off[1]))
                r = self.convert(ty, v, F, q, mem)
                if r is None:
                    continue
                for w, at, z in r.panics:
                    if self.sure(F, pc, z):
                        self.ctx.violation("C18:convert:%s:panic" % name, "%s encoded in %s and decoded can't be converted back: panic at %s" % (name, sz, at))
                for x, z, _, st in r.rets:
                    ok = eq(x, F, z)
                    if ok is None:
                        self.ctx.undecided.append("decoding %s gives %s" % (name, short(x, 80)))
                    elif not ok:
                        self.ctx.violation("C18:value:%s" % name, "%s encoded in %s is decoded as %s" % (name, sz, short(norm(x, F, z)[0], 120)))

    def truncated(self, name, encs, F):
        for g, pc in encs:
            for n in range(len(g)):
                outs = self.decode(g[:n], F, pc, name)
                self.ctx.inc("truncations")
                for kind, v, off, q, mem in outs or ():
                    if kind == "Ok" and self.sure(F, pc, q):
                        self.ctx.violation("C18:truncated:%s" % name, "the first %d of the %d bytes of an encoded %s are decoded to a value" % (n, len(g), name))
                for m in self.odd:
                    self.ctx.violation("C18:truncated:%s:odd" % name, "decoding the first %d of the %d bytes of an encoded %s %s" % (n, len(g), name, m))


def BUFSTORE(items):
    return {BUF: ("agg", ("array",), None, tuple(items))}


def tyname(t):
    from ..prog import tyname as n
    return n(t)


def scalars():
    """(name, type, value, {symbol: integer type}, equality)"""
    for i in INTS:
        v = ("sym", "v:" + i)
        yield i, p(i), v, {v: i}, lambda x, F, pc, v=v, i=i: same(x, v, i, F, pc)
    v = ("sym", "amount")
    yield "Amount", AMOUNT, ("agg", AMOUNT[:2], 0, (v,)), {v: "u64"}, lambda x, F, pc: same(x[3][0], v, "u64", F, pc) if x[0] == "agg" and len(x[3]) == 1 else None
    for k in (0, 1):
        yield "bool", p("bool"), ("k", k, "bool"), {}, lambda x, F, pc, k=k: x[0] == "k" and int(x[1]) == k if x[0] == "k" else None
    yield "unit", ("tuple", ()), UNIT, {}, lambda x, F, pc: x[0] == "agg" and not x[3] or x[0] == "k"
    a = ("sym", "addr")
    yield "Address", ADDR, ("agg", ADDR[:2], 0, (a,)), {}, lambda x, F, pc: address(x, a)


def address(x, a):
    if x[0] != "agg" or len(x[3]) != 1:
        return None
    q = x[3][0]
    if q[0] == "call" and q[1].split("::")[-1] == "as_ptr" and q[2][0][0] == "agg" and q[2][0][1] == ("array",):
        xs = q[2][0][3]
        return len(xs) >= 20 and all(y == ("idx", ("mem", a), ("k", j, "usize")) for j, y in enumerate(xs[:20]))
    return None



def option(ty):
    return ("adt", OPT, (ty,))


def opts(P):
    vs = [v[0] for v in P.adts[OPT]["variants"]]
    return vs.index("None"), vs.index("Some")


def array(xs):
    return ("agg", ("array",), None, tuple(xs))


def options(c):
    marks = set()
    none, some = opts(c.P)
    for name, ty, value, types, eq in list(scalars()):
        if name == "unit":
            continue
        F = Facts(types)
        o = option(ty)

        def oeq(x, F, pc, eq=eq, want=None):
            if x[0] != "agg" or x[1] != ("adt", OPT):
                return None
            return (x[2] or 0) == some and eq(x[3][0], F, pc)
        n = "Option<%s>" % name
        v = ("agg", ("adt", OPT), some, (value,))
        encs = c.encode(n, o, v, F)
        c.sizes(n, o, v, encs, F)
        c.roundtrip(n, o, v, encs, F, oeq)
        n = "None of Option<%s>" % name
        v = ("agg", ("adt", OPT), none, ())
        encs = c.encode(n, o, v, F)
        c.sizes(n, o, v, encs, F)
        c.roundtrip(n, o, v, encs, F, lambda x, F, pc: x[0] == "agg" and x[1] == ("adt", OPT) and (x[2] or 0) == none if x[0] == "agg" else None)
        marks |= {g[0][1] for g, _ in encs if g and g[0][0] == "k"}
    return marks


def values(c):
    """Value's own encoding is that of what it holds."""
    for name, ty, value, types, eq in scalars():
        F = Facts(types)
        direct = {g for g, _ in c.encode(name, ty, value, F)}
        r = c.run("core::convert::From::from", (VALUE, ty), [value], F, what="Value of " + name)
        for v, pc, _, _ in r.rets if r else ():
            got = {g for g, _ in c.encode("Value of " + name, VALUE, v, F)}
            c.ctx.inc("values")
            if got != direct:
                c.ctx.violation("C18:value-encode:" + name, "a Value of %s is encoded differently from %s itself" % (name, name))


ELEMS = 10


def elements(n, kind):
    if kind == "u8":
        vs = [("sym", "e%d" % i) for i in range(n)]
        return p("u8"), vs, {v: "u8" for v in vs}, lambda i, x, F, pc: same(x, vs[i], "u8", F, pc)
    if kind == "bool":
        vs = [("k", (i * i // 2 + n) % 2, "bool") for i in range(n)]
        return p("bool"), vs, {}, lambda i, x, F, pc: int(x[1]) == vs[i][1] if x[0] == "k" else None
    vs = [("sym", "addr%d" % i) for i in range(n)]
    return ADDR, [("agg", ADDR[:2], 0, (v,)) for v in vs], {}, lambda i, x, F, pc: address(x, vs[i])


def arrays(c):
    marks = set()
    for kind in ("u8", "bool", "Address"):
        for n in range(ELEMS + 1):
            ty, vs, types, eq = elements(n, kind)
            F = Facts(types)
            at = ("array", ty, ("cv", n))
            name = "[%s; %d]" % (kind, n)
            c.ctx.inc("arrays")
            encs = c.encode(name, at, array(vs), F)
            c.sizes(name, at, array(vs), encs, F)

            def aeq(x, F, pc, eq=eq, n=n):
                if x[0] != "agg" or x[1] != ("array",):
                    return None
                if len(x[3]) != n:
                    return False
                rs = [eq(i, y, F, pc) for i, y in enumerate(x[3])]
                return False if False in rs else None if None in rs else True
            if n:
                c.roundtrip(name, at, array(vs), encs, F, aeq)
            for g, pc in encs:
                for k, v, off, q, mem in c.decode(g, F, pc, name) or ():
                    if k == "Ok" and c.sure(F, pc, q):
                        again = c.encode("Value of " + name, VALUE, v, F, {x: y for x, y in mem.items() if x[1][0] == "pel"})
                        c.ctx.inc("values")
                        # an integer put together from its bytes is that integer
                        if any(tuple(norm(x, F, q)[0] for x in h) != g and len(h) != len(g) for h, _ in again):
                            c.ctx.violation("C18:value-encode:array", "a Value of %s is encoded differently from %s itself" % (name, name))
            if kind == "u8" and n in (1, 3, 10):
                c.truncated(name, encs, F)
            marks |= {g[0][1] for g, _ in encs if g and g[0][0] == "k"}
    # the other element types, once each
    for name, ty, value, types, eq in scalars():
        if name in ("unit", "u8", "bool", "Address"):
            continue
        F = Facts(types)
        at = ("array", ty, ("cv", 1))
        n = "[%s; 1]" % name
        encs = c.encode(n, at, array([value]), F)
        c.sizes(n, at, array([value]), encs, F)
        c.roundtrip(n, at, array([value]), encs, F, lambda x, F, pc, eq=eq: (len(x[3]) == 1 and eq(x[3][0], F, pc)) if x[0] == "agg" else None)
    return marks


VEC = "svm_sdk_std::vec::Vec"


def buffer(c):
    """with_capacity(2); push a; push b; as_slice is [a, b]; a third push panics."""
    P, F = c.P, Facts({})
    B = ("obj", "vec")
    r = c.run(VEC + "::<T>::with_capacity", (p("u8"),), [("k", 2, "usize")], F)
    if r is None or len(r.rets) != 1:
        raise Done("the buffer has another form")
    v = r.rets[0][0]
    allocs = r.allocs
    if any(n < 2 * ELEMSIZE for n in allocs.values()):
        c.ctx.violation("C18:buffer:alloc", "Vec::with_capacity allocates room for fewer items than asked for")
    mem = {}
    for i, x in enumerate((("sym", "a"), ("sym", "b"), ("sym", "c"))):
        r = c.run(PUSH, (("adt", VEC, (p("u8"),)),), [("ref", B, ()), x], F, store={**mem, B: v})
        if r is None:
            return
        c.ctx.inc("buffer_pushes")
        if i == 2:
            if any(not q for _, q, _, _ in r.rets):
                c.ctx.violation("C18:buffer:full", "pushing to a full buffer writes beyond it")
            return
        if r.panics and not r.rets:
            c.ctx.violation("C18:buffer:panic", "pushing item %d to a buffer of 2 panics at %s" % (i, r.panics[0][1]))
            return
        if len(r.rets) != 1:
            c.ctx.undecided.append("pushing to the buffer")
            return
        st = r.rets[0][3]
        v = st[B]
        mem = {k: y for k, y in st.items() if k[1][0] == "pel"}
        want = ("agg", ("array",), None, (("sym", "a"), ("sym", "b"))[:i + 1])
        for m in ("as_slice", "leak"):
            path = VEC + "::<T>::" + m
            if path not in P.bodies:
                continue
            r = c.run(path, (p("u8"),), [("ref", B, ()) if m == "as_slice" else v], F, store={**mem, B: v}) or NONE
            for y, q, _, _ in r.rets:
                if y[0] == "agg" and y[1] == ("array",):
                    if y != want:
                        c.ctx.violation("C18:buffer:" + m, "Vec::%s after pushing %d items gives %s" % (m, i + 1, short(y, 60)))
                else:
                    c.ctx.undecided.append("Vec::%s gives %s" % (m, short(y, 60)))


MIX = ("u8", "bool", "Address", "i8", "u8", "bool")
class NONE:
    rets = panics = ()


CALLDATA = "svm_abi_decoder::calldata::CallData"


def mixed(n):
    tys, vals, types, eqs = [], [], {}, []
    for i, k in enumerate(MIX[:n]):
        if k in INTS:
            v = ("sym", "t%d" % i)
            types[v] = k
            tys.append(p(k))
            vals.append(v)
            eqs.append(lambda x, F, pc, v=v, k=k: same(x, v, k, F, pc))
        elif k == "bool":
            b = ("k", int(i == 1), "bool")
            tys.append(p("bool"))
            vals.append(b)
            eqs.append(lambda x, F, pc, b=b: int(x[1]) == b[1] if x[0] == "k" else None)
        else:
            a = ("sym", "addr%d" % i)
            tys.append(ADDR)
            vals.append(("agg", ADDR[:2], 0, (a,)))
            eqs.append(lambda x, F, pc, a=a: address(x, a))
    return tys, vals, types, eqs


def calldata(c):
    """A tuple's parts are encoded in order; next_N gives them back in order."""
    ctx, P = c.ctx, c.P
    cn = [f[0] for f in P.adts["svm_abi_decoder::cursor::Cursor"]["variants"][0][2]]
    dn = [f[0] for f in P.adts[CALLDATA]["variants"][0][2]]
    if sorted(cn) != ["bytes", "offset"] or sorted(dn) != ["cursor", "decoder"]:
        raise Done("CallData has other fields")
    for n in range(1, 7):
        tys, vals, types, eqs = mixed(n)
        F = Facts(types)
        ty = ("tuple", tuple(tys))
        v = ("agg", ("tuple",), None, tuple(vals))
        name = "(%s)" % ", ".join(MIX[:n])
        ctx.inc("tuples")
        encs = c.encode(name, ty, v, F)
        c.sizes(name, ty, v, encs, F)
        parts = []
        for t, x in zip(tys, vals):
            e = c.encode(tyname(t), t, x, F)
            parts.append(e[0][0] if len(e) == 1 else None)
        if None not in parts:
            flat = sum(parts, ())
            for g, pc in encs:
                eq = [a == b2 or same(a, b2, "u8", F, pc) for a, b2 in zip(g, flat)]
                if len(g) == len(flat) and False not in eq:
                    if None in eq:
                        ctx.undecided.append("the encoding of %s" % name)
                else:
                    ctx.violation("C18:tuple:%d" % n, "a tuple %s isn't encoded as its parts one after the other" % name)
        else:
            ctx.undecided.append("parts of %s" % name)
            continue
        path = CALLDATA + "::<'a>::next_%d" % n
        if path not in P.bodies:
            ctx.undecided.append("no CallData::next_%d" % n)
            continue
        for more in (True, False):
            items = flat + ((("k", 0, "u8"), ("sym", "tail")) if more else ())
            store = dict(BUFSTORE(items))
            cur = {"bytes": ("ref", BUF, ()), "offset": ("k", 0, "usize")}
            fs = {"cursor": ("agg", ("adt", "svm_abi_decoder::cursor::Cursor"), 0, tuple(cur[x] for x in cn)),
                  "decoder": ("agg", ("adt", "svm_abi_decoder::decoder::Decoder"), 0, ())}
            store[CD] = ("agg", ("adt", CALLDATA), 0, tuple(fs[x] for x in dn))
            r = c.run(path, (None,) + tuple(tys), [("ref", CD, ())], F, store=store, what="next_%d" % n) or NONE
            for w, at, q in r.panics:
                if all(F.known(x) for x in q):
                    ctx.violation("C18:next:%d:panic" % n, "CallData::next_%d over an encoded %s panics at %s" % (n, name, at))
            for x, q, _, st in r.rets:
                ctx.inc("calldata")
                xs = [x] if n == 1 else list(x[3]) if x[0] == "agg" and len(x[3]) == n else None
                if xs is None:
                    ctx.undecided.append("CallData::next_%d gives %s" % (n, short(x, 60)))
                    continue
                for j, y in enumerate(xs):
                    ok = eqs[j](y, F, q)
                    if ok is False:
                        ctx.violation("C18:next:%d" % n, "CallData::next_%d over an encoded %s gives as item %d %s" % (n, name, j, short(norm(y, F, q)[0], 80)))
                    elif ok is None:
                        ctx.undecided.append("CallData::next_%d item %d is %s" % (n, j, short(y, 60)))
                off = st[CD][3][dn.index("cursor")]
                off = off[3][cn.index("offset")] if off[0] == "agg" else ("?",)
                if off[0] == "k" and off[1] != len(flat):
                    ctx.violation("C18:next:%d:offset" % n, "CallData::next_%d over the %d bytes of an encoded %s takes %d" % (n, len(flat), name, off[1]))
    # new() and the end
    b = P.bodies.get(CALLDATA + "::<'a>::new")
    nx = P.bodies.get(CALLDATA + "::<'a>::next")
    if b is None or nx is None:
        ctx.undecided.append("CallData::new or next has another form")
        return
    for items in ((), (("k", 0, "u8"),)):
        F = Facts({})
        store = dict(BUFSTORE(items))
        r = c.run(b.path, (None,), [("ref", BUF, ())], F, store=store) or NONE
        for x, q, _, st in r.rets:
            if x[0] == "agg" and x[3][dn.index("cursor")][0] == "agg":
                cur = x[3][dn.index("cursor")][3]
                if cur[cn.index("offset")] != ("k", 0, "usize"):
                    ctx.violation("C18:new:offset", "a new CallData starts at %s" % short(cur[cn.index("offset")], 30))
                cur = {"bytes": ("ref", BUF, ()), "offset": ("k", len(items), "usize")}
                fs = {"cursor": ("agg", ("adt", "svm_abi_decoder::cursor::Cursor"), 0, tuple(cur[y] for y in cn)), "decoder": x[3][dn.index("decoder")]}
                st2 = dict(BUFSTORE(items))
                st2[CD] = ("agg", ("adt", CALLDATA), 0, tuple(fs[y] for y in dn))
                r2 = c.run(nx.path, (None,), [("ref", CD, ())], F, store=st2) or NONE
                ctx.inc("ends")
                none = opts(P)[0]
                for y, q, _, _ in r2.rets:
                    if y[0] == "agg" and y[1] == ("adt", OPT) and (y[2] or 0) != none:
                        ctx.violation("C18:next:end", "CallData::next at the end of the data gives a value")
                for w, at, q in r2.panics:
                    if not all(F.known(x) for x in q):
                        continue
                    ctx.violation("C18:next:end:panic", "CallData::next at the end of the data panics at %s" % at)


def unknown_markers(c, markers):
    F = Facts({})
    for b in range(256):
        if b in markers:
            continue
        c.ctx.inc("markers")
        outs = c.decode((("k", b, "u8"),) + tuple(("sym", "tail%d" % i) for i in range(24)), F, {}, "marker %#x" % b)
        for kind, v, off, q, mem in outs or ():
            if kind == "Ok" and not q:
                c.ctx.violation("C18:marker", "a byte %#04x that no encoding starts with is decoded as %s" % (b, short(v, 60)))
                return


def check(ctx):
    c = Check(ctx)
    try:
        markers = set()
        for name, ty, value, types, eq in scalars():
            F = Facts(types)
            ctx.inc("types")
            encs = c.encode(name, ty, value, F)
            c.sizes(name, ty, value, encs, F)
            c.roundtrip(name, ty, value, encs, F, eq)
            c.truncated(name, encs, F)
            markers |= {g[0][1] for g, _ in encs if g and g[0][0] == "k"}
        markers |= options(c)
        values(c)
        markers |= arrays(c)
        calldata(c)
        buffer(c)
        if ctx.undecided:
            ctx.undecided.append("the markers encodings start with")
        else:
            unknown_markers(c, markers)
        ctx.sample({"markers": sorted(markers)})
    except Done as e:
        ctx.undecided.append(str(e))

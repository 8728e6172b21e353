"""C15: nothing is deployed or spawned without the gas for it."""
from ..eng import *
from ..codec import short
from .rt import *

RULE = ("on every path of deploy and spawn that stores a template, creates an account or runs guest code, the branch conditions taken imply gas limit >= price, where the price is the payload price of the whole message and, "
        "for spawn, also the price of the named constructor's export under the code of the template loaded from the message's template address; "
        "every path that reports out-of-gas before running anything has conditions that imply the limit does not exceed the price; a price is cached only under the address of the template it was computed from; "
        "a deploy receipt reports the price")
EXPLAIN = ("Path-sensitive dataflow from Runtime::{deploy,spawn} to each creation, guest invocation and return; branch outcomes are linear facts over the limit and the prices, and the obligation must follow from them by adding facts. "
           "All paths; no execution.")
FLOORS = {"creations": 2, "oog_returns": 2, "entry_points": 2}
ASSUME = ["library functions behave as documented", "subtractions don't wrap where the compiled overflow check passed"]

GAS = "svm_types::gas::Gas"
MAX = 2 ** 64 - 1


def lin(t):
    """Linear form {atom: coefficient} (atom None: the constant), casts dropped."""
    if t[0] == "k" and isinstance(t[1], int):
        return {None: t[1]}
    if t[0] == "cast":
        return lin(t[1] if isinstance(t[1], tuple) else t[2])
    if t[0] == "bin" and t[1] in ("Add", "Sub"):
        a, b = lin(t[2]), lin(t[3])
        s = 1 if t[1] == "Add" else -1
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, 0) + s * v
        return {k: v for k, v in out.items() if v}
    if t[0] == "bin" and t[1] == "Mul":
        a, b = lin(t[2]), lin(t[3])
        for x, y in ((a, b), (b, a)):
            if set(x) <= {None}:
                return {k: v * x.get(None, 0) for k, v in y.items() if v * x.get(None, 0)}
    if t[0] == "fld" and t[2] == "Some" and t[1][0] == "call" and t[1][1].split("::")[-1] in ("checked_sub", "checked_add") and len(t[1][2]) == 2:
        return lin(("bin", "Sub" if t[1][1].endswith("sub") else "Add") + tuple(unit(x) for x in t[1][2]))
    return {t: 1}


def plus(a, b, s=1):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + s * v
    return {k: v for k, v in out.items() if v}


def arith(t, op):
    return t[0] == "call" and t[1].split("::")[-1] == op and len(t[2]) == 2


def facts(pc):
    """Linear forms that are >= 0 on a path."""
    fs = []
    for t, v in pc.items():
        if t[0] == "bin" and t[1] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne") and v in (0, 1):
            op, a, b = t[1], t[2], t[3]
            if op in ("Gt", "Ge"):
                a, b, op = b, a, {"Gt": "Lt", "Ge": "Le"}[op]
            a, b = lin(unit(a)), lin(unit(b))
            if op == "Lt":
                fs.append(plus(plus(b, a, -1), {None: -1}) if v else plus(a, b, -1))
            elif op == "Le":
                fs.append(plus(b, a, -1) if v else plus(plus(a, b, -1), {None: -1}))
            elif (op == "Eq") == bool(v):
                fs += [plus(a, b, -1), plus(b, a, -1)]
            elif not set(b):
                fs.append(plus(a, {None: -1}))
        elif t[0] == "discr" and arith(t[1], "checked_sub") and v in (0, 1):
            a, b = lin(unit(t[1][2][0])), lin(unit(t[1][2][1]))
            fs.append(plus(a, b, -1) if v else plus(plus(b, a, -1), {None: -1}))
        elif t[0] in ("fld", "call", "bin") and (t[0] != "bin" or t[1] in ("Add", "Sub", "Mul")):
            if isinstance(v, frozenset) and 0 in v:
                fs.append(plus(lin(unit(t)), {None: -1}))
            elif v == 0:
                x = lin(unit(t))
                fs += [x, plus({}, x, -1)]
    # a saturating difference is the difference once it is known to be positive
    subs = {}
    for _ in range(4):
        for x, d in subs.items():
            fs = [replaced(f, x, d) for f in fs]
        sat = {x for f in fs for x in f if x is not None and arith(x, "saturating_sub")}
        for x in sat:
            d = plus(lin(unit(x[2][0])), lin(unit(x[2][1])), -1)
            if any(f.get(x, 0) > 0 and all(c <= 0 for k, c in f.items() if k != x) and f.get(None, 0) < 0 for f in fs):
                subs[x] = d
                fs = [replaced(f, x, d) for f in fs] + [d]
            elif plus({}, {x: 1}, -1) in fs:
                g = plus({}, d, -1)
                if g not in fs:
                    fs.append(g)
    return fs


def replaced(f, x, d):
    c = f.get(x, 0)
    if not c:
        return f
    g = {k: v for k, v in f.items() if k != x}
    return plus(g, {k: v * c for k, v in d.items()})


def unit(t):
    """A Gas compared as a whole stands for its amount."""
    if t[0] == "fld" and t[3] == "gas_limit" or t[0] == "call" and t[1].endswith("::gas_limit"):
        return ("fld", ("fld", t, None, "0"), "Some", "0")
    if t[0] == "agg" and t[1] == ("adt", GAS) and t[3] and t[3][0][0] == "agg" and t[3][0][2] == 1:
        return t[3][0][3][0]
    return t


def implied(goal, fs, n=2):
    """Does goal >= 0 follow from adding at most n facts (atoms are unsigned)?"""
    if all((v >= 0) for k, v in goal.items()):
        return True
    if n == 0:
        return False
    for f in fs:
        if any(k in goal and k is not None for k in f):
            if implied(plus(goal, f, -1), fs, n - 1):
                return True
    return False


def sub(t, pred):
    return any(pred(x) for x in subterms(t))


class R(RtRule):
    keep = ("svm_gas::transaction::",)

    def __init__(self, P, ent):
        super().__init__(P)
        self.ent = ent
        self.bad = {}
        self.n = {}
        self.open = set()
        self.price = None

    def say(self, k, t):
        self.bad.setdefault(k, t)

    def inc(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    # the limit: Some(l), unlimited, or unknown
    def limit(self, pc):
        for t, v in pc.items():
            if t[0] == "discr" and self.is_limit(t[1]):
                if v == 0:
                    return {None: MAX}
        for t in pc:
            for x in subterms(t):
                if x[0] == "fld" and x[2] == "Some" and self.is_limit(x[1]):
                    return {x: 1}
                if x[0] == "fld" and x[3] == "gas_limit" and t[0] == "bin":
                    return {unit(x): 1}
        return None

    def is_limit(self, t):
        return t[0] == "fld" and t[3] == "0" and t[1][0] == "fld" and t[1][3] == "gas_limit" or t[0] == "fld" and t[3] == "gas_limit"

    def is_price(self, t):
        """The price of the constructor: looked up by the index of its export, in prices of the template's code."""
        if not (t[0] == "call" and t[1].endswith("FuncPrice::get") or t[0] == "fld" and sub(t, lambda x: x[0] == "call" and x[1].endswith("::get") and "price" in short(x, 4000).lower())):
            return None
        return t

    def prices(self, pc):
        out = []
        for t in pc:
            if t[0] == "bin" or sub(t, lambda x: arith(x, "saturating_sub") or arith(x, "checked_sub")):
                for a in subterms(t):
                    if a[0] in ("call", "fld") and self.is_price(a) and a not in out:
                        out.append(a)
        return out

    def check_price(self, a):
        """Problems with a constructor's price."""
        ctor = ("fld",)
        idx = a[2][1] if a[0] == "call" else a
        tbl = a[2][0] if a[0] == "call" else a
        names = [x for x in subterms(idx) if x[0] == "fld" and x[3] == "ctor_name"]
        if not names and not sub(idx, lambda x: x[0] == "call" and x[1].endswith("ctor_name")):
            return "the price charged is that of %s, not of the constructor" % short(idx, 80)
        ta = self.template_addrs(tbl)
        if not ta:
            return None if sub(tbl, lambda x: x[0] == "call" and x[1].endswith("::visit")) else "the prices %s don't belong to the template of the message" % short(tbl, 80)
        return None

    def template_addrs(self, t):
        return [x for x in subterms(t) if x[0] == "fld" and x[3] == "template_addr"]

    def need(self, eng, st, what):
        pc = st.pc
        l = self.limit(pc)
        fs = facts(pc)
        if l is None:
            return "%s without looking at the gas limit" % what
        if l == {None: MAX}:
            pass
        price = dict(self.payload)
        if self.ent == "spawn":
            ps = self.prices(pc)
            if not ps:
                if l == {None: MAX}:
                    return None
                return "%s although the price of the constructor was not charged" % what
            why = [self.check_price(a) for a in ps]
            if all(why):
                return "%s, but %s" % (what, why[0])
            ps = [a for a, w in zip(ps, why) if not w]
            goals = [plus(plus(l, price, -1), {a: 1}, -1) for a in ps]
        else:
            goals = [plus(l, price, -1)]
        if l == {None: MAX}:
            return None
        if not any(implied(g, fs) for g in goals):
            return "%s although the gas limit need not cover the price" % what
        return None

    def on_call(self, eng, st, path, targs, args, site):
        if path == GUEST or path.startswith(STATE) and path.endswith(("TemplateStorage::create", "AccountStorage::create")) and "{" not in path:
            self.inc("creations" if path != GUEST else "guest_calls")
            if path != GUEST or not any(e[0] in ("paid",) for e in st.events()):
                w = self.need(eng, st, "guest code runs" if path == GUEST else "%s at %s" % ("a template is stored" if "Template" in path else "an account is created", where(site)))
                if w:
                    self.say("unpaid:" + path.split("::")[-2], w)
            st.event("paid")
        if path.endswith("::insert") and ("HashMap" in path or "BTreeMap" in path or "IndexMap" in path) and len(args) == 3:
            m, k, v = (eng.snap(st, a) for a in args)
            if sub(v, lambda x: x[0] == "call" and x[1].endswith("::visit")):
                self.inc("cached_prices")
                ka = [x for x in subterms(k) if x[0] == "fld" and x[3] == "template_addr"]
                loads = [x for x in subterms(v) if x[0] == "call" and x[1].endswith("TemplateStorage::load")]
                if loads and not any(k == a or k in subterms(a) or (ka and ka[0] in set(subterms(a))) for l in loads for a in l[2]):
                    self.say("cache", "the prices of a template are cached at %s under %s, which is not the address it was loaded from" % (where(site), short(k, 60)))
        return super().on_call(eng, st, path, targs, args, site)

    def on_return(self, eng, st, val):
        v = eng.snap(st, val)
        if v[0] != "agg" or v[1][0] != "adt":
            return
        fs_ = [f[0] for f in self.P.variants(v[1][1])[v[2] or 0][2]]
        get = lambda n: v[3][fs_.index(n)] if n in fs_ else None
        er = get("error")
        if er is not None and er[0] == "agg" and er[2] == 1 and er[3][0][0] == "agg" and er[3][0][2] is not None:
            vs = self.P.variants(er[3][0][1][1])
            if vs and vs[er[3][0][2]][0] == "OOG" and not any(e[0] == "guest" for e in st.events()):
                self.inc("oog_returns")
                if any(e[0] == "paid" for e in st.events()):
                    return
                l = self.limit(st.pc)
                fs = facts(st.pc)
                if l is None:
                    self.say("oog", "out-of-gas is reported without looking at the gas limit")
                    return
                strict = {None: -1} if self.ent == "deploy" else {}
                goals = [plus(plus(dict(self.payload), l, -1), strict)] + [plus(plus(self.payload, {a: 1}), l, -1) for a in self.prices(st.pc)]
                zero = None not in l and any(t == ("bin", "Eq", list(l)[0], ("k", 0, "int")) and x == 1 or t == list(l)[0] and x == 0 for t, x in st.pc.items())
                if zero and self.ent != "deploy":
                    return
                if not any(implied(g, fs) for g in goals):
                    self.say("oog", "out-of-gas is reported although %s" % ("there is no limit" if None in l else "the gas limit may cover the price"))
        g = get("gas_used")
        if self.ent == "deploy" and get("success") == TRUE:
            self.inc("gas_reports")
            while g is not None and g[0] == "agg" and len(g[3]) == 1:
                g = g[3][0]
            if g is not None and lin(g) != self.payload:
                self.say("used", "the receipt reports %s as gas used, not the price of the deployment" % short(g, 60))


class Val(Rule):
    def __init__(self):
        self.rets = []

    def on_return(self, eng, st, val):
        self.rets.append((eng.snap(st, val), dict(st.pc)))

    def on_panic(self, eng, st, what, site):
        pass


def run(P, path, args):
    b = P.bodies.get(path)
    if b is None:
        return None
    r = Val()
    Engine(P, r).run(b, (), args)
    return r.rets


def check(ctx):
    P = ctx.P
    for ent in ("deploy", "spawn"):
        rets = run(P, "svm_gas::transaction::" + ent, [("sym", "message")])
        if not rets or len(rets) != 1:
            ctx.undecided.append("svm_gas::transaction::%s has no single price" % ent)
            continue
        r = R(P, ent)
        r.payload = lin(rets[0][0])
        e = explore(P, r, ent)
        ctx.inc("entry_points")
        ctx.inc("abstract_states", e.stats["states"])
        for k, n in r.n.items():
            ctx.inc(k, n)
        for k, t in r.bad.items():
            ctx.violation("C15:%s:%s" % (ent, k), "Runtime::%s: %s" % (ent, t))
        ctx.sample("Runtime::%s: payload price %s; %s" % (ent, short(rets[0][0], 60), ", ".join("%d %s" % (n, k) for k, n in sorted(r.n.items()))))
    # comparing an amount of gas with a price
    A, B = ("sym", "a"), ("sym", "b")
    rets = run(P, "<svm_types::gas::Gas as core::cmp::PartialOrd<u64>>::partial_cmp", [A, B])
    amount = ("fld", ("fld", A, None, "0"), "Some", "0")
    for v, pc in rets or ():
        ctx.inc("comparisons")
        none = any(t[0] == "discr" and x == 0 for t, x in pc.items())
        o = v[3][0] if v[0] == "agg" and v[3] else None
        if o is None or o[0] != "agg":
            continue
        fs = facts(pc)
        want = {0: plus(plus({B: 1}, {amount: 1}, -1), {None: -1}), 2: plus(plus({amount: 1}, {B: 1}, -1), {None: -1})}
        if none and o[2] != 2:
            ctx.violation("C15:cmp:none", "an absent gas limit compares as %s to a price, not as greater" % ("less", "equal")[o[2] or 0])
        elif not none and o[2] in want and not implied(want[o[2]], fs):
            ctx.violation("C15:cmp", "comparing an amount of gas with a price gives the wrong order (%s)" % ("less", "equal", "greater")[o[2]])

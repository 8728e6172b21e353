"""C19: receipts carry what the guest produced: its return data, its logs, the accounts it touched."""
from ..eng import *
from ..codec import short
from .rt import *
from .c18 import window

RULE = ("with the guest announcing no return data or a range of its memory, and writing two log entries, the receipt of a success has exactly the bytes of that range, read after the function ran, both entries in order "
        "(entries of svm_alloc may precede them) and the touched accounts of the environment; the receipt of a failure has the entries too; "
        "`svm_set_returndata` stores the range it is given, `svm_log` appends one entry with exactly the bytes of the range it is given, and a host function that changes the balance of an account marks it as touched; "
        "the environment starts with the target as touched and no entries")
EXPLAIN = ("Value-provenance dataflow from Runtime::{call,verify,spawn} to each returned receipt, with the effect of the guest on its environment given by symbols, and from each registered host function to its exits. "
           "Ranges of memory are represented by the lengths 0, 1 and 3 at offset 2 with one symbol per byte. All paths; no execution.")
FLOORS = {"receipts": 6, "host_functions": 10, "host_exits": 4}
ASSUME = ["a guest's memory is what the engine's view of it shows", "library functions behave as documented"]

OPT = ("adt", "core::option::Option")
AT = 2
LOGS = (("sym", "flog0"), ("sym", "flog1"))


def arr(*xs):
    return ("agg", ("array",), None, tuple(xs))


class Mem:
    """Guest memory of known cells; what a cell holds depends on how many guest calls have run."""
    size = 9

    def memory(self, eng, st, path, args):
        last = path.split("::")[-1]
        if last == "view" and "Memory" in path:
            return [(arr(*[("sym", "cell%d" % i) for i in range(self.size)]), st)]
        if last == "data_size" and "Memory" in path:
            return [(("k", self.size, "u64"), st)]
        if last == "index" and len(args) == 2:
            w = window(eng.snap(st, args[0]), eng.snap(st, args[1]))
            if w:
                return [(w, st)]
        if last == "get" and "cell::Cell" in path:
            c = eng.snap(st, args[0])
            if c[0] == "sym" and c[1].startswith("cell"):
                g = len([e for e in st.events() if e[0] == "guest"])
                b = ("sym", "byte%s@%d" % (c[1][4:], g))
                st.ghost = (st.ghost or ()) + (b,)      # each read is a state of its own, so that loops over cells are followed one by one
                return [(b, st)]
        return None


class Out(Mem, RtRule):
    def __init__(self, P, rd):
        super().__init__(P)
        self.rd = rd
        self.receipts = []
        self.start = []

    def opaque(self, path, body):
        return super().opaque(path, body) or path.endswith("::wasmer_register")

    def on_call(self, eng, st, path, targs, args, site):
        r = self.memory(eng, st, path, args)
        if r:
            return r
        if path == GUEST:
            if not [e for e in st.events() if e[0] == "guest"]:
                for v in st.store.values():
                    for a in aggs(v, INNER, []) if isinstance(v, tuple) else ():
                        self.start.append((dict(zip(self.inner_fields, eng.snap(st, a)[3])), where(site)))
            r = super().on_call(eng, st, path, targs, args, site)
            alloc = self.guests[-1]["name"] == ("str", "svm_alloc")
            F = self.inner_fields

            def effect(a):
                v = dict(zip(F, a[3]))
                v["logs"] = arr(("sym", "alog")) if alloc else arr(*LOGS)
                v["returndata"] = ("agg", OPT, 0, ()) if alloc or self.rd is None else ("agg", OPT, 1, (("agg", ("tuple",), None, (("k", AT, "usize"), ("k", self.rd, "usize"))),))
                return ("agg", a[1], a[2], tuple(v[f] for f in F))
            for val, s in r:
                s.ghost = (s.ghost or ()) + (("guest", alloc),)
                for c in list(s.store):
                    if isinstance(s.store[c], tuple):
                        s.store[c] = rewrite(s.store[c], INNER, effect)
            return r
        return super().on_call(eng, st, path, targs, args, site)

    def on_return(self, eng, st, val):
        self.receipts.append((eng.snap(st, val), st.events()))


class Host(Mem, Rule):
    max_states = 60000
    max_depth = 40

    def __init__(self, P):
        self.P = P
        self.exits = []

    def opaque(self, path, body):
        return path.startswith(("wasmer::", "svm_codec::", "svm_state::"))

    def on_call(self, eng, st, path, targs, args, site):
        r = self.memory(eng, st, path, args)
        if r:
            return r
        last = path.split("::")[-1]
        if path.startswith(STATE) and last in ("set_balance", "upsert", "create"):
            st.event("write", eng.snap(st, args[0]), where(site))
        if last == "insert" and "HashSet" in path:
            st.event("insert", eng.snap(st, args[0]), eng.snap(st, args[1]))
        if path.endswith("wasm_ptr::WasmPtr::<T>::deref") or last == "deref" and "WasmPtr" in path:
            return None
        return None

    def on_return(self, eng, st, val):
        for a in aggs(eng.snap(st, st.store.get(HENV, UNIT)), INNER, []):
            self.exits.append((dict(zip(fields(self.P, INNER[1]), a[3])), st.events()))


def plain(v):
    """The items of a known sequence, or None."""
    while v[0] == "call" and v[1].split("::")[-1] in ("into_boxed_slice", "into_vec", "to_vec") and len(v[2]) == 1:
        v = v[2][0]
    if v[0] == "agg" and v[1] == ("array",):
        return v[3]
    return None


LOSSY = ("truncate", "dedup", "dedup_by", "dedup_by_key", "retain", "retain_mut", "sort", "sort_by", "sort_by_key", "sort_unstable", "reverse", "insert", "remove", "swap_remove", "swap", "rotate_left", "rotate_right", "drain", "pop", "split_off", "resize")


def lossy(v):
    """The library operation that drops or reorders elements of a known sequence, if that is what v is the outcome of."""
    while v[0] == "mut":
        n = v[2].split("::")[-1]
        if n in LOSSY:
            return n
        v = v[1]
    return None


def run_with(P, r, body, targs, consts, inner):
    """Explore a host function with known arguments and fields of the environment."""
    env = host_env(P)
    F = fields(P, INNER[1])
    env = rewrite(env, INNER, lambda a: ("agg", a[1], a[2], tuple(inner.get(f, x) for f, x in zip(F, a[3]))))
    eng = Engine(P, r)
    eng.run(body, targs, [("ref", HENV, ())] + consts, store={HENV: env})
    return eng


def known(t):
    return t[0] in ("k", "sym") or t[0] == "agg" and all(known(x) for x in t[3])


def receipts(ctx, P):
    for ent in ("call", "verify", "spawn"):
        for rd in (None, 1, 3):
            r = Out(P, rd)
            e = explore(P, r, ent)
            ctx.inc("abstract_states", e.stats["states"])
            for f, at in r.start:
                ctx.inc("starts")
                ls = plain(f["logs"])
                if ls or known(f["returndata"]) and f["returndata"][2] == 1:
                    ctx.violation("C19:%s:start" % ent, "Runtime::%s starts with log entries or return data of something else (guest call at %s)" % (ent, at))
            bare = bool(r.start) and all(plain(f["touched_accounts"]) == () for f, at in r.start)
            for v, ev in r.receipts:
                if not (v[0] == "agg" and v[1][0] == "adt" and v[1][1].endswith("Receipt")):
                    ctx.undecided.append("Runtime::%s returns %s" % (ent, short(v, 60)))
                    continue
                f = dict(zip(fields(P, v[1][1]), v[3]))
                guests = [x for x in ev if x[0] == "guest"]
                ran = [x for x in guests if x[1] != ("str", "svm_alloc")]
                if not ran:
                    continue
                ctx.inc("receipts")
                at = ran[-1][3]
                ok_ = f["success"] == ("k", 1, "bool")
                ls = plain(f["logs"])
                if lossy(f["logs"]):
                    ctx.violation("C19:%s:logs" % ent, "Runtime::%s applies `%s` to the log entries of the receipt (guest call at %s)" % (ent, lossy(f["logs"]), at))
                elif ls is None or not all(x[0] == "sym" for x in ls):
                    ctx.undecided.append("Runtime::%s: the logs of the receipt are %s" % (ent, short(f["logs"], 80)))
                else:
                    own = [x for x in ls if x != ("sym", "alog")]
                    if tuple(own) != LOGS or ls and ("sym", "alog") in ls[1:]:
                        ctx.violation("C19:%s:logs" % ent, "Runtime::%s returns a receipt (%s) with the log entries [%s] after the function wrote [flog0, flog1] (guest call at %s)" % (
                            ent, "success" if ok_ else "failure", ", ".join(x[1] for x in ls), at))
                if not ok_:
                    continue
                d = f["returndata"]
                bs = plain(d[3][0]) if d[0] == "agg" and d[1] == OPT and d[2] == 1 else () if d == ("agg", OPT, 0, ()) else None
                want = tuple(("sym", "byte%d@%d" % (AT + i, len(guests))) for i in range(rd or 0))
                if bs is None or not all(x[0] in ("sym", "k") for x in bs):
                    ctx.undecided.append("Runtime::%s: the return data of the receipt is %s" % (ent, short(d, 80)))
                elif bs != want:
                    ctx.violation("C19:%s:returndata" % ent, "Runtime::%s returns a receipt with return data [%s] after the function announced %s of its memory (guest call at %s)" % (
                        ent, ", ".join(short(x, 20) for x in bs), "bytes %d to %d" % (AT, AT + rd - 1) if rd else "nothing", at))
                if not any(x[0] == "call" and x[1] == "guest:touched_accounts" for x in subterms(f["touched_accounts"])):
                    if known(f["touched_accounts"]) or not any(x[0] in ("call", "loop", "phi", "alt") for x in subterms(f["touched_accounts"])):
                        ctx.violation("C19:%s:touched" % ent, "Runtime::%s returns a receipt without the accounts the guest touched (%s)" % (ent, short(f["touched_accounts"], 80)))
                    else:
                        ctx.undecided.append("Runtime::%s: the touched accounts of the receipt are %s" % (ent, short(f["touched_accounts"], 80)))
                elif bare and f["touched_accounts"][0] == "call" and f["touched_accounts"][1] == "guest:touched_accounts":
                    ctx.violation("C19:%s:touched" % ent, "Runtime::%s does not list the account it executes for as touched" % ent)
                if "account_addr" in f:
                    made = [x[2][1] for x in ev if x[0] == "state" and x[1].endswith("AccountStorage::create") and len(x[2]) > 1]
                    a = f["account_addr"]
                    if a == ("agg", OPT, 0, ()) or a[0] == "agg" and a[1] == OPT and made and a[3][0] not in made:
                        ctx.violation("C19:%s:address" % ent, "Runtime::%s reports %s as the address of the new account" % (ent, short(a, 80)))
                    ctx.inc("addresses")
                ctx.sample("Runtime::%s: %s, %d entries, %d bytes of return data" % (ent, "success" if ok_ else "failure", len(ls or ()), len(bs or ())))


def check(ctx):
    P = ctx.P
    receipts(ctx, P)
    hosts = {}
    for ent, (r, e) in guests_of(P, entries=("call",), cls=HostFns).items():
        hosts.update(r.hosts)
        F = fields(P, INNER[1])
        for g in r.guests[:1]:
            pass
    names = {}
    for path, (body, targs, envs, nms) in hosts.items():
        ctx.inc("host_functions")
        for n in nms:
            names[n] = (body, targs)
    # -- svm_set_returndata
    if "svm_set_returndata" in names and names["svm_set_returndata"][0] is not None:
        body, targs = names["svm_set_returndata"]
        for n in (1, 3, 70000):
            r = Host(P)
            run_with(P, r, body, targs, [("k", 66000 + AT, "u32"), ("k", n, "u32")], {"returndata": ("agg", OPT, 0, ())})
            for f, ev in r.exits:
                ctx.inc("host_exits")
                d = f["returndata"]
                if d[0] == "agg" and d[1] == OPT and known(d):
                    got = [x[1] for x in d[3][0][3]] if d[2] == 1 else None
                    if got != [66000 + AT, n]:
                        ctx.violation("C19:host:returndata", "svm_set_returndata(%d, %d) leaves the return data as %s (%s)" % (66000 + AT, n, got, body.span))
                else:
                    ctx.undecided.append("svm_set_returndata leaves the return data as %s" % short(d, 80))
            if not r.exits:
                ctx.violation("C19:host:returndata", "svm_set_returndata(%d, %d) never returns (%s)" % (66000 + AT, n, body.span))
    else:
        ctx.undecided.append("svm_set_returndata is not registered in a form that is followed")
    # -- svm_log
    if "svm_log" in names and names["svm_log"][0] is not None:
        body, targs = names["svm_log"]
        old = (("sym", "old0"), ("sym", "old1"))
        for n in (0, 1, 3):
            r = Host(P)
            run_with(P, r, body, targs, [("k", AT, "u32"), ("k", n, "u32")], {"logs": arr(*old)})
            for f, ev in r.exits:
                ctx.inc("host_exits")
                ls = plain(f["logs"])
                if lossy(f["logs"]):
                    ctx.violation("C19:host:log", "svm_log applies `%s` to the log entries (%s)" % (lossy(f["logs"]), body.span))
                    continue
                if ls is None:
                    ctx.undecided.append("svm_log leaves the logs as %s" % short(f["logs"], 80))
                    continue
                want = tuple(("sym", "byte%d@0" % (AT + i)) for i in range(n))
                new = [plain(x[3][0]) if x[0] == "agg" and len(x[3]) == 1 else None for x in ls[2:]]
                if ls[:2] != old or len(ls) != 3:
                    ctx.violation("C19:host:log", "svm_log leaves the entries [%s] after [old0, old1] (%s)" % (", ".join(short(x, 30) for x in ls), body.span))
                elif new[0] is None or not all(x[0] in ("sym", "k") for x in new[0]):
                    ctx.undecided.append("svm_log appends %s" % short(ls[2], 80))
                elif new[0] != want:
                    ctx.violation("C19:host:log", "svm_log(%d, %d) appends [%s] instead of the bytes of that range (%s)" % (AT, n, ", ".join(short(x, 20) for x in new[0]), body.span))
            if not r.exits:
                ctx.violation("C19:host:log", "svm_log(%d, %d) never returns (%s)" % (AT, n, body.span))
    else:
        ctx.undecided.append("svm_log is not registered in a form that is followed")
    # -- touched accounts
    for n, (body, targs) in sorted(names.items()):
        if body is None:
            continue
        r = Host(P)
        try:
            run_host(P, r, body, targs)
        except Budget:
            ctx.undecided.append("%s: too many states" % n)
            continue
        for f, ev in r.exits:
            ctx.inc("host_exits")
            ws = [x for x in ev if x[0] == "write"]
            for _, acc, at in ws:
                ad = [t[2][1] for t in subterms(acc) if t[0] == "call" and t[1].endswith(("AccountStorage::load", "AccountStorage::create")) and len(t[2]) > 1]
                for a in ad:
                    if not any(x[0] == "insert" and x[2] == a for x in ev):
                        ctx.violation("C19:host:touched:%s" % n, "%s changes the account %s without marking it as touched (%s)" % (n, short(a, 60), at))
                    else:
                        ctx.inc("touched")

"""C10: coins are neither created nor destroyed by transfers, and only their owner can spend them."""
from .ledger import *
from .rt import RT, HostFns, guests_of, run_host, fields, ENV, MODE

RULE = ("along every path of a transfer the balances written are old - amount for the source and old + amount for the destination (or nothing is written: zero amount or a transfer to oneself), each computed from a balance that no "
        "possibly aliasing write came after, with source >= amount established and the addition checked; nothing can fail between the two writes; the host function's source is the executing account; "
        "no other host function writes a balance, increase_balance adds exactly its amount, and a spawned account starts with 0")
EXPLAIN = ("Symbolic ledger dataflow over every read and write of account records, from Runtime::transfer, Runtime::increase_balance, every registered host function and Runtime::spawn down to the key-value store. All paths; no execution.")
FLOORS = {"transfers": 2, "balance_writes": 5, "host_functions": 10}
ASSUME = ["a failure of the database itself is out of scope", "stored records decode (C01)", "library functions behave as documented"]

NAMES = {"src": "source", "dst": "destination"}


def lin(t, sign=1, out=None):
    """Linear form of a sum."""
    out = {} if out is None else out
    if t[0] == "bin" and t[1] in ("Add", "Sub"):
        lin(t[2], sign, out)
        lin(t[3], sign if t[1] == "Add" else -sign, out)
    elif t[0] == "trunc" and t[1] == "u64" or t[0] == "cast" and t[1] == "u64":
        lin(t[2], sign, out)
    elif t[0] == "k":
        out[None] = out.get(None, 0) + sign * t[1]
    else:
        out[t] = out.get(t, 0) + sign
    return {k: v for k, v in out.items() if v}


def record(t):
    """(storage key, version) of the record a field was read from, or None."""
    if t[0] == "fld" and t[2:] == ("Ok", "0"):
        t = t[1]
    if t[0] == "call" and t[1] == "decoded" and t[2][0][0] == "call" and t[2][0][1] == "rec":
        return t[2][0][2][0], t[2][0][2][1][1]
    return None


def fields_of(P, v):
    """(base, {field: value}) that an encoded record differs from its base in."""
    v = strip_enc(v)
    if v[0] == "upd":
        return v[1], {p[-1][-1] if isinstance(p[-1], tuple) else p[-1]: x for p, x in v[2]}
    if v[0] == "agg" and v[1][0] == "adt":
        fs = [x[0] for x in P.variants(v[1][1])[v[2] or 0][2]]
        vals = dict(zip(fs, v[3]))
        bases = {x[1] for f, x in vals.items() if x[0] == "fld" and x[3] == f and record(x[1])}
        if len(bases) == 1:
            b = bases.pop()
            return b, {f: x for f, x in vals.items() if x != ("fld", b, None, f)}
        return None, vals
    return None, None


def stale(st, w, i, key, n):
    """A write between the read (of version n) and write i that may be to the same key."""
    for j in range(n, i):
        if not apart(st, keyof(w[j][0]), key):
            return True
    return False


class R(Ledger):
    def __init__(self, P):
        super().__init__()
        self.P = P
        self.arith = []

    def on_panic(self, eng, st, what, site):
        if what[0] == "assert" and what[1] == "overflow" and len(what[2]) == 3:
            op, a, b = what[2]
            if op.startswith("Sub") and eng.known(st, ("bin", "Lt", a, b)) == 0:
                return
        super().on_panic(eng, st, what, site)
        if what[0] == "assert" and what[1] == "overflow" and len(what[2]) == 3:
            if any(t[0] == "call" and t[1] == "rec" for x in (a, b) for t in subterms(x)):
                self.arith.append((op, a, b, where(site)))

    def on_return(self, eng, st, val):
        self.rets.append((eng.snap(st, val), st.ghost, dict(st.pc), st, eng))


def deltas(P, r, say):
    """Per return: ([(address, {amount term: coefficient})], state)."""
    out = []
    for val, w, pc, st, eng in r.rets:
        ds = []
        for i, (k, v) in enumerate(w):
            key = keyof(k)
            base, ch = fields_of(P, v)
            if ch is None or key is None or "balance" not in ch and base is None:
                say("form", "writes %s to %s" % (short(strip_enc(v), 60), short(k, 60)))
                continue
            if base is None:
                ds.append((key[1][0], None, ch))
                continue
            rb = record(base)
            if rb is None or keyof(rb[0]) != key and not (keyof(rb[0]) and keyof(rb[0])[0] == key[0] and same(st, keyof(rb[0])[1][0], key[1][0])):
                say("base", "overwrites the record of %s with that of %s" % (short(key[1][0], 40), short(base, 60)))
            elif stale(st, w, i, key, rb[1]):
                say("stale", "may overwrite a change made to the same account in between (two accounts that may be the same)")
            if set(ch) - {"balance"}:
                say("other", "also changes %s of an account" % ", ".join(sorted(set(ch) - {"balance"})))
            if "balance" not in ch:
                continue
            L = lin(ch["balance"])
            own = [t for t, c in L.items() if c == 1 and t is not None and t[0] == "fld" and t[3] == "balance" and record(t[1])
                   and (keyof(record(t[1])[0]) == key or keyof(record(t[1])[0]) and same(st, keyof(record(t[1])[0])[1][0], key[1][0]))]
            if len(own) != 1:
                say("balance", "sets the balance of %s to %s" % (short(key[1][0], 40), short(ch["balance"], 80)))
                continue
            if stale(st, w, i, key, record(own[0][1])[1]):
                say("stale", "computes the balance of %s from a value that may be out of date (the accounts may be the same)" % short(key[1][0], 40))
            d = {t: c for t, c in L.items() if t != own[0]}
            ds.append((key[1][0], d, own[0]))
            for t, c in d.items():
                if t is None:
                    continue
                if c == -1 and eng.known(st, ("bin", "Lt", own[0], t)) != 0 and st.pc.get(("ovf", "Sub", own[0], t)) != 0:
                    say("under", "subtracts %s from the balance of %s without establishing that the balance suffices" % (short(t, 30), short(key[1][0], 40)))
                if c == 1 and st.pc.get(("ovf", "Add", own[0], t)) != 0 and st.pc.get(("ovf", "Add", t, own[0])) != 0:
                    say("over", "adds %s to the balance of %s unchecked" % (short(t, 30), short(key[1][0], 40)))
        out.append((ds, st, eng))
    return out


def transfer(ctx, P, r, name, src, dst, amount):
    """src/dst: predicates on address terms."""
    def say(key, text):
        ctx.violation("C10:%s:%s" % (name, key), "%s %s" % (name, text))
    ctx.inc("transfers")
    some_write = False
    for ds, st, eng in deltas(P, r, say):
        ctx.inc("paths")
        ctx.inc("balance_writes", len(ds))
        if any(d is None for _, d, _ in ds):
            say("create", "creates or resets an account")
            continue
        tot = {}
        for a, d, _ in ds:
            for t, c in d.items():
                tot[t] = tot.get(t, 0) + c
        if any(tot.values()):
            say("sum", "changes the total of all balances by %s" % " ".join("%+d*%s" % (c, short(t, 30) if t else "1") for t, c in tot.items() if c))
        if not ds:
            addr = [t for t, v in st.pc.items() if v == 1 and t[0] == "bin" and t[1] == "Eq" for a, b in [(bare(t[2]), bare(t[3]))] if (src(a) and dst(b)) or (src(b) and dst(a))]
            if st.pc.get(amount) != 0 and not addr and eng.known(st, ("bin", "Eq", amount, K(0, "u64"))) != 1:
                say("none", "may end without transferring a non-zero amount between two accounts")
            continue
        some_write = True
        for a, d, _ in ds:
            for t, c in d.items():
                if t != amount:
                    say("amount", "transfers %s instead of its amount" % short(t or UNIT, 60))
                elif c < 0 and not src(a):
                    say("src", "takes coins from %s" % short(a, 60))
                elif c > 0 and not dst(a):
                    say("dst", "gives coins to %s" % short(a, 60))
    if not some_write:
        say("never", "never moves any coins")
    for op, a, b, at in r.arith:
        say("arith", "computes a balance with %s, which wraps around in release builds (at %s)" % (op, at))
    for what, w, at, st in r.panics:
        if w:
            say("half", "may fail at %s after only part of the balances have been written" % at)
    for op, at in r.unknown:
        say("control", "calls Storage::%s in the middle of a transfer (at %s)" % (op, at))


def check(ctx):
    P = ctx.P
    # Runtime::transfer
    def roles2(b):
        out, n = [], 0
        for i in range(b.argc):
            t = tyname(b.locals[i + 1])
            if t == "Address":
                out.append(("sym", ("src", "dst")[min(n, 1)]))
                n += 1
            else:
                out.append(("sym", {"u64": "amount"}.get(t, t)))
        return out
    b = P.bodies[RT + "transfer"]
    r = R(P)
    e = run_fn(P, r, RT + "transfer", ghost=(), args=roles2(b))
    ctx.inc("abstract_states", e.stats["states"])
    one = lambda n: (lambda t: t == ("sym", n))
    transfer(ctx, P, r, "Runtime::transfer", one("src"), one("dst"), ("sym", "amount"))
    # Runtime::increase_balance
    b = P.bodies[RT + "increase_balance"]
    r = R(P)
    e = run_fn(P, r, RT + "increase_balance", ghost=(), args=roles2(b))
    ctx.inc("abstract_states", e.stats["states"])

    def say(key, text):
        ctx.violation("C10:increase_balance:" + key, "Runtime::increase_balance " + text)
    for ds, st, eng in deltas(P, r, say):
        ctx.inc("balance_writes", len(ds))
        val = eng.snap(st, UNIT)
        tot = {}
        for a, d, _ in ds:
            if d is None or a != ("sym", "src"):
                say("which", "writes the record of %s" % short(a, 60))
                continue
            for t, c in d.items():
                tot[t] = tot.get(t, 0) + c
        if ds and tot != {("sym", "amount"): 1}:
            say("sum", "changes the balance by %s" % tot)
    if not any(w for _, w, _, _, _ in r.rets):
        say("never", "never changes a balance")
    for op, a, bb, at in r.arith:
        say("arith", "computes a balance with %s, which wraps around in release builds (at %s)" % (op, at))
    # host functions
    hosts = {}
    for ent, (rr, e) in guests_of(P, cls=HostFns).items():
        hosts.update(rr.hosts)
    full = [v[0] for v in P.variants(MODE)].index("FullAccess")
    for path, (body, targs, envs, nms) in sorted(hosts.items()):
        label = "/".join(sorted(nms)) or path.split("::")[-1]
        ctx.inc("host_functions")
        if body is None:
            ctx.undecided.append("host function %s has no body" % label)
            continue
        r = R(P)
        eng = Engine(P, r)
        from .rt import host_env, HENV
        args = [("ref", HENV, ())] + [("sym", "p%d:%s" % (i, tyname(body.locals[i + 1]))) for i in range(1, body.argc)]
        eng.run(body, targs, args, store={HENV: host_env(P, full)}, ghost=())
        ctx.inc("abstract_states", eng.stats["states"])
        if label == "svm_transfer":
            am = [a for a in args[1:] if a[1].endswith("u64")]
            offs = [a for a in args[1:] if a[1].endswith("i32") or a[1].endswith("u32")]
            target = ("sym", "env.target_addr")

            def at(n):
                def f(t):
                    # an address read from the guest's memory at the n-th offset
                    ms = [o for o in offs if mentions(t, o)]
                    return ms == [offs[n]] or n == 0 and t == target
                return f
            if len(am) != 1 or len(offs) != 2:
                ctx.undecided.append("svm_transfer takes other parameters than expected")
                continue
            transfer(ctx, P, r, label, at(0), at(1), am[0])
            for ds, st, eg in deltas(P, r, lambda k, t: None):
                for a, d, _ in ds:
                    if d and any(c < 0 for c in d.values()) and not same(st, a, target):
                        ctx.violation("C10:svm_transfer:owner", "svm_transfer takes coins from %s without establishing that it is the executing account" % short(a, 60))
            continue
        for val, w, pc, st, eg in r.rets:
            for k, v in w:
                key = keyof(k)
                ctx.inc("host_writes")
                if key and key[0][-1:] == (":mutable",) or "balance" in (fields_of(P, v)[1] or {}):
                    ctx.violation("C10:host:" + label, "host function %s writes an account's balance record" % label)
        ctx.sample("%s writes no balance" % label)
    spawn(ctx, P)


def spawn(ctx, P):
    from .rt import RtRule, explore

    class C(RtRule):
        def __init__(s, P):
            super().__init__(P)
            s.made = []

        def on_call(s, eng, st, path, targs, args, site):
            if path.startswith(AS) and path[len(AS):] in ("create", "create_stub") or path.startswith(AS + "set_"):
                a = [eng.snap(st, x) for x in args]
                fresh = len(a) > 1 and any(mentions(t, a[1]) and any(x[0] == "call" and x[1].startswith("svm_state::") for x in subterms(t)) for t in st.pc)
                s.made.append((path[len(AS):], a, where(site), fresh))
            return super().on_call(eng, st, path, targs, args, site)
    for ent in ("deploy", "spawn", "verify", "call"):
        r = C(P)
        e = explore(P, r, ent)
        ctx.inc("abstract_states", e.stats["states"])
        for op, a, at, fresh in r.made:
            b = P.bodies[AS + op]
            ctx.inc("accounts_created")
            bal = [x for i, x in enumerate(a) if tyname(b.locals[i + 1]) == "u64"]
            if op.startswith("create") and ent == "spawn":
                if bal != [("k", 0, "u64")] and not (bal and bal[0][0] == "k" and bal[0][1] == 0):
                    ctx.violation("C10:spawn:balance", "Runtime::spawn creates an account with balance %s (at %s)" % (", ".join(short(x, 40) for x in bal), at))
                if not fresh:
                    ctx.violation("C10:spawn:overwrite", "Runtime::spawn creates the account without testing whether it exists (at %s)" % at)
            else:
                ctx.violation("C10:%s:%s" % (ent, op), "Runtime::%s performs AccountStorage::%s (at %s)" % (ent, op, at))

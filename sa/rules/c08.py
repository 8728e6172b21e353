"""C08: every C function performs the operation it names, with its own arguments, and reports its outcome."""
from .ffi import *

RULE = ("per exported function: exactly one operation of the runtime is invoked, the one it stands for, on the registered runtime; every argument is built from the parameters meant for it and from no other; "
        "the result is an error when the operation failed, otherwise carries the encoded receipt or the requested values")
EXPLAIN = "Value-provenance dataflow from the parameters of each exported C function to the runtime operation, and from its outcome to the result and the output parameters. All paths; no execution."
FLOORS = {"exported_functions": 15, "operations": 14, "ok_returns": 14}
ASSUME = ["callers pass pointers that are valid for the documented sizes", "library functions behave as documented"]

RUNTIME = "svm_runtime::runtime::runtime::Runtime::"
ACT = [None, {"envelope"}, {"message", "message_size"}, {"context"}]
VAL = [None, {"message", "message_size"}]
# export -> (operation, parameters each argument is built from; None: the handle or don't care, outcome)
TABLE = {
    "svm_deploy": ("deploy", ACT, "receipt"), "svm_spawn": ("spawn", ACT, "receipt"), "svm_verify": ("verify", ACT, "receipt"), "svm_call": ("call", ACT, "receipt"),
    "svm_validate_deploy": ("validate_deploy", VAL, "result"), "svm_validate_spawn": ("validate_spawn", VAL, "result"), "svm_validate_call": ("validate_call", VAL, "result"),
    "svm_commit": ("commit", [None], "result"), "svm_rewind": ("rewind", [None, {1}], "result"),
    "svm_uncommitted_changes": ("has_uncommitted_changes", [None], "flag"),
    "svm_layer_info": ("current_layer", [None], "out"),
    "svm_get_account": ("get_account", [None, {1}], "out"),
    "svm_create_genesis_account": ("create_genesis_account", [None, {1}, None, {2}, {3, 4}], "result"),
    "svm_increase_balance": ("increase_balance", [None, {1}, {2}], "result"),
    "svm_transfer": ("transfer", [None, {1}, {2}, {3}], "unit"),
}


def syms(v):
    return {s[1] for s in subterms(v) if s[0] == "sym" and not s[1].startswith("static:")}


class R(FfiRule):
    def __init__(self, P, body):
        super().__init__(P)
        self.body = body
        self.name = body.export
        self.pn = [body.names.get(i + 1, "a%d" % i) for i in range(body.argc)]
        self.spec = TABLE.get(self.name)
        self.bad = {}
        self.ops = self.oks = 0

    def say(self, k, t):
        self.bad.setdefault(k, "%s: %s" % (self.name, t))

    def params(self, s):
        # positions stand for the parameter at that position; names for parameters of the shared calling convention
        out = set()
        conv = {"envelope": 1, "context": 4} if self.spec[2] == "receipt" else {}
        conv.update({"message": 2, "message_size": 3} if self.spec[2] == "receipt" else {"message": 1, "message_size": 2})
        for x in s:
            out.add(self.pn[x if isinstance(x, int) else conv[x]])
        return out

    def on_call(self, eng, st, path, targs, args, site):
        r = super().on_call(eng, st, path, targs, args, site)
        if r is not None:
            return r
        if path.split("::")[-1] in ("clone_from_slice", "copy_from_slice") and len(args) == 2:
            st.event("copy", eng.snap(st, args[0]), eng.snap(st, args[1]))
        elif path.split("::")[-1] in ("copy_nonoverlapping", "copy") and len(args) == 3:
            st.event("copy", eng.snap(st, args[1]), eng.snap(st, args[0]))
        if path.startswith(RUNTIME) and not path.endswith("::new"):
            op = path[len(RUNTIME):]
            vs = [eng.snap(st, a) for a in args]
            if self.spec is None:
                return None
            self.ops += 1
            if st.ghost:
                self.say("twice", "performs more than one operation (%s, then %s)" % (st.ghost, op))
            if op != self.spec[0]:
                self.say("op", "performs Runtime::%s instead of Runtime::%s (at %s)" % (op, self.spec[0], where(site)))
            else:
                for i, want in enumerate(self.spec[1]):
                    if i < len(vs) and want is not None:
                        w = self.params(want)
                        if syms(vs[i]) != w:
                            self.say("arg%d" % i, "argument %d of Runtime::%s is built from %s instead of %s (at %s)"
                                     % (i, op, "/".join(sorted(syms(vs[i]))) or "nothing", "/".join(sorted(w)), where(site)))
                if op == "create_genesis_account":
                    self.counter(vs[4])
                if syms(vs[0]) != {self.pn[0]}:
                    self.say("handle", "operates on a runtime obtained from %s" % ("/".join(sorted(syms(vs[0]))) or "elsewhere"))
            st.ghost = op
            st.event("op", op)
        return None

    def counter(self, v):
        hi, lo = ("sym", self.pn[3]), ("sym", self.pn[4])
        if not halves(v, hi, lo):
            self.say("counter", "the counter is %s, not %s * 2^64 + %s" % (short(v, 80), hi[1], lo[1]))

    def on_return(self, eng, st, val):
        v = eng.snap(st, val)
        if self.spec is None or v[0] != "agg":
            return
        fs = [f[0] for f in self.P.variants(v[1][1])[0][2]]
        null = lambda x: x[0] == "call" and x[1].endswith(("null_mut", "null"))
        rec, er = v[3][fs.index("receipt")], v[3][fs.index("error")]
        op, how = self.spec[0], self.spec[2]
        done = st.ghost == op
        out = None
        for t, x in st.pc.items():
            if t[0] == "discr" or t[0] == "variant":
                if t[1][0] == "call" and t[1][1] == RUNTIME + op:
                    out = x
        if not null(er):
            if done and how in ("receipt", "unit") or done and how == "result" and out != 1:
                self.say("err", "reports an error although Runtime::%s did not fail" % op)
            if how == "flag" and done and out == 0 and not any(x == 1 and t[0] == "fld" and t[1][0] == "call" and t[1][1] == RUNTIME + op for t, x in st.pc.items()):
                self.say("flag", "reports uncommitted changes although there are none")
            return
        self.oks += 1
        if not done:
            self.say("undone", "reports success without performing Runtime::%s" % op)
            return
        if how == "result" and out != 0:
            self.say("ok", "reports success although Runtime::%s failed" % op)
        if how == "flag":
            if any(x == 1 and t[0] == "fld" and t[1][0] == "call" and t[1][1] == RUNTIME + op for t, x in st.pc.items()):
                self.say("flag", "reports no uncommitted changes although there are some")
        if how == "receipt":
            owned = [s for s in subterms(rec) if s[0] == "call" and s[1].endswith("::encode_to_vec")]
            if null(rec) or not owned or not (owned[0][2][0][0] == "call" and owned[0][2][0][1] == RUNTIME + op):
                self.say("receipt", "returns %s instead of the encoded receipt" % short(rec, 80))
            elif not exact(rec, owned[0]):
                self.say("receipt", "returns %s, which is not the whole encoded receipt" % short(rec, 80))
        elif not null(rec):
            self.say("receipt", "returns a receipt")
        if how == "out":
            self.outputs(eng, st, op)

    def outputs(self, eng, st, op):
        cells = {c[1]: v for c, v in st.store.items() if c[0] == "obj"}
        if op == "current_layer":
            lay = cells.get(("sym", self.pn[2]))
            if lay is None or last(lay) != ("0", "0"):
                self.say("out", "the layer is set to %s" % short(lay or UNIT, 60))
            h = [e for e in st.events() if e[0] == "copy" and syms(e[1]) == {self.pn[1]}]
            if not h or not any(s[0] == "fld" and s[-1] == "1" and s[1][0] == "call" and s[1][1] == RUNTIME + op for s in subterms(h[-1][2])):
                self.say("out", "the state hash is set to %s" % short(h[-1][2] if h else UNIT, 60))
        elif op == "get_account":
            v = cells.get(("sym", self.pn[2]))
            got = upds(v) if v is not None else {}
            some = lambda x, i: any(s[0] == "fld" and s[-1] == i and s[1][0] == "fld" and s[1][2] == "Some" for s in subterms(x))
            want = {"balance": "0", "template_addr": "2"}
            for f, i in want.items():
                if f not in got or not some(got[f], i) or any(some(got[f], j) for j in "012" if j != i):
                    self.say("out:" + f, "the account's %s is set to %s" % (f, short(got.get(f, UNIT), 80)))
            if "address" not in got or syms(got["address"]) != {self.pn[1]}:
                self.say("out:address", "the account's address is set to %s" % short(got.get("address", UNIT), 80))
            hi, lo = got.get("counter_upper_bits"), got.get("counter_lower_bits")
            if hi is None or not some(hi, "1") or not shifted(hi):
                self.say("out:hi", "the upper half of the counter is set to %s" % short(hi or UNIT, 80))
            if lo is None or not some(lo, "1") or shifted(lo):
                self.say("out:lo", "the lower half of the counter is set to %s" % short(lo or UNIT, 80))


def last(v):
    """Field path of a term, outermost last."""
    out = []
    while v[0] in ("fld", "cast"):
        if v[0] == "fld":
            out.append(v[-1])
            v = v[1]
        else:
            v = v[1] if isinstance(v[1], tuple) else v[2]
    return tuple(reversed(out))


def upds(v):
    """Fields written into an object of unknown contents."""
    out = {}

    def rec(x):
        if not isinstance(x, tuple):
            return
        if len(x) == 2 and isinstance(x[0], tuple) and len(x[0]) == 2 and x[0][0] is None and isinstance(x[0][1], str) and isinstance(x[1], tuple):
            out[x[0][1]] = x[1]
            return
        for y in x:
            rec(y)
    rec(v)
    return out


def shifted(v):
    return any(s[0] == "bin" and (s[1].startswith("Shr") and s[3][:2] == ("k", 64) or s[1] == "Div" and s[3][:2] == ("k", 1 << 64)) for s in subterms(v))


def halves(v, hi, lo):
    """hi << 64 | lo (or an equivalent sum)."""
    v = uncast(v)
    if v[0] != "bin" or v[1].replace("Unchecked", "").replace("WithOverflow", "") not in ("BitOr", "Add", "BitXor"):
        return False
    for a, b in ((v[2], v[3]), (v[3], v[2])):
        a, b = uncast(a), uncast(b)
        if b == lo and a[0] == "bin" and uncast(a[2]) == hi:
            if a[1].startswith("Shl") and a[3][:2] == ("k", 64) or a[1].startswith("Mul") and a[3][:2] == ("k", 1 << 64):
                return True
    return False


def uncast(v):
    while v[0] == "cast":
        v = v[1] if isinstance(v[1], tuple) else v[2]
    return v


def exact(ptr, buf):
    """The pointer is that of the whole buffer: only leak/into_raw/as_ptr in between."""
    v = ptr
    while v != buf:
        if v[0] == "call" and v[1].split("::")[-1] in ("as_mut_ptr", "as_ptr", "leak", "into_raw", "cast", "to_vec", "into_boxed_slice") and v[2]:
            v = v[2][0]
        elif v[0] == "cast":
            v = uncast(v)
        else:
            return False
    return True


def check(ctx):
    P = ctx.P
    names = set()
    for b in exports(P):
        names.add(b.export)
        ctx.inc("exported_functions")
        r = R(P, b)
        e = run(P, r, b, None)
        ctx.inc("abstract_states", e.stats["states"])
        ctx.inc("operations", r.ops)
        ctx.inc("ok_returns", r.oks)
        if r.spec and not r.ops:
            r.say("never", "never performs Runtime::" + r.spec[0])
        for k, t in r.bad.items():
            ctx.violation("C08:%s:%s" % (b.export, k), t)
        if r.spec:
            ctx.sample("%s -> Runtime::%s" % (b.export, r.spec[0]))

"""Shared analysis of the transaction entry points of the runtime."""
from ..eng import *
from ..codec import short, pretty

RT = "svm_runtime::runtime::runtime::Runtime::"
INNER = ("adt", "svm_runtime::func_env::Inner")
ENV = ("adt", "svm_runtime::func_env::FuncEnv")
MODE = "svm_runtime::func_env::AccessMode"
STATE = "svm_state::"
GUEST = "wasmer::sys::externals::function::Function::call"
READS = ("balance", "counter", "template_addr", "name", "get_var_i32", "get_var_i64", "get_var", "get_var_array", "load", "sections")
IS_CTOR = "svm_types::template::Template::is_ctor"


def fields(P, adt):
    return [f[0] for f in P.variants(adt)[0][2]]


def aggs(v, kind, out, n=0):
    """All aggregates of an ADT inside a value."""
    if isinstance(v, tuple) and n < 12:
        if v and v[0] == "agg" and v[1] == kind:
            out.append(v)
        for x in v:
            if isinstance(x, tuple):
                aggs(x, kind, out, n + 1)
    return out


def rewrite(v, kind, fn, n=0):
    if not isinstance(v, tuple) or n > 12:
        return v
    if v and v[0] == "agg" and v[1] == kind:
        return fn(v)
    if any(isinstance(x, tuple) for x in v):
        return tuple(rewrite(x, kind, fn, n + 1) for x in v)
    return v


class RtRule(Rule):
    """Explores a transaction entry point; the state layer, the decoders, gas pricing and the WASM engine are opaque."""
    max_states = 60000
    max_depth = 30
    skip = ("svm_state::", "svm_program::", "svm_gas::", "svm_codec::", "wasmer::")
    keep = ()

    def __init__(self, P):
        self.P = P
        self.guests = []
        self.inner_fields = fields(P, INNER[1])
        self.modes = {i: v[0] for i, v in enumerate(P.variants(MODE))}

    def opaque(self, path, body):
        if path.startswith(self.keep) and self.keep:
            return False
        return path.startswith(self.skip) or path == IS_CTOR

    def mode_of(self, eng, st):
        """Names of the access modes the live environments may be in."""
        out = set()
        i = self.inner_fields.index("mode")
        for c, v in st.store.items():
            for a in aggs(v, INNER, []):
                m = a[3][i]
                out.add(self.modes[m[2]] if m[0] == "agg" and m[2] is not None else pretty(m))
        return out

    def on_call(self, eng, st, path, targs, args, site):
        if path == GUEST:
            f = eng.snap(st, args[0])
            g = {"fn": f, "name": None, "mode": self.mode_of(eng, st), "pc": dict(st.pc), "where": where(site), "params": eng.snap(st, args[1]),
                 "trace": st.events(), "entry": st.frames[0].body.path, "st": st}
            for t in subterms(f):
                if t[0] == "call" and t[1].endswith("::get_function"):
                    g["name"] = t[2][1]
                    break
            for t in subterms(f):
                if t[0] == "call" and t[1].endswith("Module::from_binary"):
                    g["code"] = t[2][1]
            self.guests.append(g)
            s = st.copy()
            s.event("guest", g["name"], tuple(sorted(g["mode"])), where(site))
            # the guest may call back into the host: everything but the access mode may change
            k = self.inner_fields.index("mode")

            def havoc(a):
                return ("agg", a[1], a[2], tuple(x if j == k else ("call", "guest:" + self.inner_fields[j], (), (site[0].ctx, site[0].bb))
                                                for j, x in enumerate(a[3])))
            for c in list(s.store):
                v = s.store[c]
                if isinstance(v, tuple):
                    s.store[c] = rewrite(v, INNER, havoc)
            r = ("call", "guest", (g["name"] or f,), (site[0].ctx, site[0].bb))
            eng.forget(s, r)
            return [(ok(("fld", r, "Ok", "0")), s), (err(("fld", r, "Err", "0")), s.copy())]
        if path.startswith(STATE) and "{" not in path:
            st.event("state", path[len(STATE):], tuple(eng.snap(st, a) for a in args), where(site))
        return None


def explore(P, rule, entry, args=None):
    b = P.bodies[RT + entry]
    eng = Engine(P, rule)
    eng.run(b, tuple(("param", i, g) for i, g in enumerate(b.gen)), args or [("sym", x) for x in ["self", "envelope", "message", "context"][:b.argc]])
    return eng


NATIVE = "::Function::new_native_with_env"
HENV = ("obj", "env")
STORAGE = "svm_state::storage::Storage::"


def guests_of(P, entries=("call", "verify", "spawn"), cls=RtRule):
    """(rule, engine) per transaction entry point."""
    out = {}
    for ent in entries:
        r = cls(P)
        out[ent] = (r, explore(P, r, ent))
    return out


class HostFns(RtRule):
    """Collects the host functions that the import object hands to the guest."""

    def __init__(self, P):
        super().__init__(P)
        self.hosts = {}

    def on_call(self, eng, st, path, targs, args, site):
        if path.endswith(NATIVE) or path.endswith("::Function::new_with_env"):
            f = eng.snap(st, args[-1])
            if f[0] == "fn":
                body, rt, rp = self.P.resolve(f[1], f[2])
                self.hosts.setdefault(rp, [body, rt, set(), set()])[2].add(eng.snap(st, args[1]))
            else:
                self.hosts.setdefault(str(f)[:80], [None, (), set(), set()])
        elif path.endswith("::Exports::insert"):
            nm = eng.snap(st, args[1])
            for t in subterms(eng.snap(st, args[2])):
                if t[0] == "fn":
                    body, rt, rp = self.P.resolve(t[1], t[2])
                    if rp in self.hosts and nm[0] == "str":
                        self.hosts[rp][3].add(nm[1])
        return super().on_call(eng, st, path, targs, args, site)


def host_env(P, mode=None):
    """An environment about which only the access mode is known."""
    inner = ("agg", INNER, 0, tuple((("agg", ("adt", MODE), mode, ()) if mode is not None else ("sym", "mode")) if f == "mode" else ("sym", "inner." + f)
                                    for f in fields(P, INNER[1])))
    return ("agg", ENV, 0, tuple(inner if f == "inner" else ("sym", "env." + f) for f in fields(P, ENV[1])))


def run_host(P, rule, body, targs, mode=None):
    eng = Engine(P, rule)
    eng.run(body, targs, [("ref", HENV, ())] + [("sym", body.names.get(i + 1, "a%d" % i)) for i in range(1, body.argc)], store={HENV: host_env(P, mode)})
    return eng


def is_write(P, path):
    """Does this operation of the key-value store take it mutably?"""
    b = P.bodies.get(path)
    return b is None or b.sig is None or not b.sig[0] or b.sig[0][0][0] != "ref" or bool(b.sig[0][0][2])

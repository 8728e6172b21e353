"""C07: receipts tell the truth about the state: success <=> committed, failure <=> undone."""
from ..eng import *
from ..codec import short
from ..models import W_CAUGHT
from .. import cg
from .rt import *

RULE = ("typestate (saved, touched, committed, trapped) along every path of Runtime::{deploy,spawn,verify,call}: a receipt with success=true is returned only when the last guest call did not trap and, "
        "if guest code ran, its changes were checkpointed and committed and the receipt carries the state that this commit returned; a receipt with success=false carries an error, and "
        "nothing was committed and every change since the entry was rolled back, without touching changes made before the entry; a panic does not get past the entry with changes left behind")
EXPLAIN = "Typestate dataflow from each transaction entry point of the runtime through every helper to every return and every panic; state-layer operations and guest calls are the events. All paths; no execution."
FLOORS = {"entry_points": 4, "success_returns": 3, "failure_returns": 5, "panics": 5}
ASSUME = ["an error or panic of the state layer itself (database failure) is out of scope", "library functions behave as documented"]

# (saved, touched, committed, trapped): changes made before entry are checkpointed; changes of this transaction are pending; ...
G0 = (False, False, False, None)
CONTROL = ("checkpoint", "commit", "rollback", "rewind")


def state_result(v):
    """Is this the result (or error) that an operation of the state layer returned?"""
    while True:
        if v[0] == "agg" and v[2] == 1 and v[3]:
            v = v[3][0]
        elif v[0] == "fld":
            v = v[1]
        elif v[0] == "call" and v[1] == "await" or v[0] == "await":
            v = v[2][0] if v[0] == "call" else v[1]
        else:
            return v[0] == "call" and v[1].startswith(STATE)


class R(RtRule):
    def __init__(self, P):
        super().__init__(P)
        self.writes, self.control = set(), set()
        for p in P.bodies:
            if p.startswith(STATE) and not p.startswith(STORAGE):
                r = [x for x in cg.reach(P, p) if x.startswith(STORAGE) and "{" not in x]
                if any(x[len(STORAGE):] in CONTROL for x in r):
                    self.control.add(p)
                elif any(is_write(P, x) for x in r):
                    self.writes.add(p)
        self.bad = {}
        self.n = {"success_returns": 0, "failure_returns": 0, "panics": 0}

    def opaque(self, path, body):
        return path not in self.control and super().opaque(path, body)

    def say(self, key, text):
        self.bad.setdefault(key, text)

    def on_call(self, eng, st, path, targs, args, site):
        if path == GUEST:
            saved, touched, com, trap = st.ghost
            if not saved and not touched:
                self.say("unsaved", "guest code runs at %s before the changes made by earlier transactions are saved, so that a failure could undo them" % where(site))
            out = super().on_call(eng, st, path, targs, args, site)
            (a, s1), (b, s2) = out
            s1.ghost = (saved, True, com, False)
            s2.ghost = (saved, True, com, True)
            return out
        if path in self.writes and "{" not in path:
            saved, touched, com, trap = st.ghost
            st.ghost = (saved, True, com, trap)
        elif path.startswith(STORAGE) and "{" not in path:
            op = path[len(STORAGE):]
            saved, touched, com, trap = st.ghost
            if op == "checkpoint":
                st.ghost = (saved, "saved", com, trap) if touched else (True, touched, com, trap)
            elif op == "commit":
                st.ghost = (saved, touched is True, True, trap)
            elif op == "rollback":
                if touched == "saved":
                    self.say("late", "%s rolls back after the failed transaction's changes were already saved" % where(site))
                if not saved:
                    self.say("undo", "the rollback at %s also undoes changes made by earlier transactions, which were not saved" % where(site))
                st.ghost = (saved, False, com, trap)
            elif op == "rewind":
                self.say("rewind", "rewinds at " + where(site))
            elif is_write(self.P, path):
                st.ghost = (saved, True, com, trap)
        return super().on_call(eng, st, path, targs, args, site)

    def on_unwind(self, eng, st):
        saved, touched, com, trap = st.ghost
        st.ghost = (saved, True, com, True)

    def on_return(self, eng, st, val):
        v = eng.snap(st, val)
        saved, touched, com, trap = st.ghost
        if v[0] != "agg" or v[1][0] != "adt":
            self.say("shape", "returns a receipt of unknown shape")
            return
        fs = [f[0] for f in self.P.variants(v[1][1])[v[2] or 0][2]]
        get = lambda n: v[3][fs.index(n)] if n in fs else None
        s, er = get("success"), get("error")
        guests = [e for e in st.events() if e[0] == "guest"]
        if s == TRUE:
            self.n["success_returns"] += 1
            if er != NONE:
                self.say("ok-error", "a successful receipt carries an error")
            if trap:
                self.say("ok-trap", "a receipt reports success although the guest trapped")
            if guests:
                if not com or touched:
                    self.say("ok-commit", "a receipt reports success although the transaction's changes were not committed")
                ns = get("new_state") or get("init_state")
                if ns is not None and not (ns[0] == "agg" and ns[2] == 1 and any(x[0] == "call" and x[1].endswith("::commit") for x in subterms(ns))):
                    self.say("ok-state", "a successful receipt's state is %s, not the state of the commit" % short(ns, 80))
        elif s == FALSE:
            self.n["failure_returns"] += 1
            if not (er is not None and er[0] == "agg" and er[1] == OPT and er[2] == 1):
                self.say("err-none", "a failed receipt carries no error")
            if com:
                self.say("err-commit", "a receipt reports failure although the transaction's changes were committed")
            if touched:
                self.say("err-left", "a receipt reports failure although the transaction's changes are left pending (error: %s)" % short(er, 60))
        else:
            self.say("flag", "the success flag %s does not depend on the outcome alone" % short(s or UNIT, 60))

    def on_panic(self, eng, st, what, site):
        self.n["panics"] += 1
        saved, touched, com, trap = st.ghost
        if not touched or any(f.wrap is W_CAUGHT for f in st.frames):
            return
        for a in what[2][:1] if len(what) > 2 else ():
            if isinstance(a, tuple) and state_result(eng.snap(st, a)):
                return
        self.say("panic:" + what[1].split("::")[-1], "the panic at %s leaves the transaction's changes pending" % where(site))


def check(ctx):
    P = ctx.P
    for ent in ("deploy", "spawn", "verify", "call"):
        r = R(P)
        b = P.bodies[RT + ent]
        e = Engine(P, r)
        e.run(b, tuple(("param", i, g) for i, g in enumerate(b.gen)), [("sym", x) for x in ["self", "envelope", "message", "context"][:b.argc]], ghost=G0)
        ctx.inc("entry_points")
        ctx.inc("abstract_states", e.stats["states"])
        for k, n in r.n.items():
            ctx.inc(k, n)
        for k, t in r.bad.items():
            ctx.violation("C07:%s:%s" % (ent, k), "Runtime::%s: %s" % (ent, t))
        ctx.sample("Runtime::%s: %s" % (ent, ", ".join("%d %s" % (n, k) for k, n in r.n.items())))

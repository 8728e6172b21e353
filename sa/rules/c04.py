"""C04: constructors run at spawn only, ordinary functions in calls only; the guest code is that of the account."""
from ..eng import *
from ..codec import short
from .rt import *

RULE = ("each invocation of guest code (other than `svm_alloc`) is dominated by the outcome of a constructor test of that function's name against the very template whose code runs: "
        "negative in call and verify, positive in spawn; the test itself is true exactly on the names of the constructors section")
EXPLAIN = ("Path-sensitive dataflow from Runtime::{call,verify,spawn} to each guest invocation, recording the branch outcomes on the way; "
           "separate dataflow over Template::is_ctor. All paths; no execution.")
FLOORS = {"guest_calls": 3, "entry_points": 3}
ASSUME = ["library functions behave as documented"]


def template_of(t):
    """The `sections()` reads inside a term."""
    return {x for x in subterms(t) if x[0] == "call" and x[1].endswith("TemplateStorage::sections")}


KIND = "svm_types::template::section::SectionKind"


class IsCtor(Rule):
    def __init__(self):
        self.rets = []

    def opaque(self, path, body):
        return path.endswith("::ctors")

    def on_return(self, eng, st, val):
        self.rets.append((eng.snap(st, val), dict(st.pc), st.events()))

    def on_more(self, eng, st, src, val, site):
        st.event("more", src, val)
        return True

    def on_panic(self, eng, st, what, site):
        pass


def check(ctx):
    P = ctx.P
    kind = [("agg", ("adt", KIND), i, ()) for i, v in enumerate(P.variants(KIND) or ()) if v[0] == "Ctors"]
    for ent, (r, e) in guests_of(P).items():
        ctx.inc("entry_points")
        ctx.inc("abstract_states", e.stats["states"])
        want = 1 if ent == "spawn" else 0
        for g in r.guests:
            if g["name"] == ("str", "svm_alloc"):
                continue
            ctx.inc("guest_calls")
            code = template_of(g.get("code", UNIT))
            seen = None
            for t, v in g["pc"].items():
                if t[0] == "call" and t[1] == IS_CTOR and t[2][1] == g["name"] and (template_of(t[2][0]) & code):
                    seen = v
                    if v != want:
                        ctx.violation("C04:%s:wrong" % ent, "Runtime::%s runs guest function %s although it is %sa constructor of the template (at %s)"
                                      % (ent, short(g["name"], 60), "" if v else "not ", g["where"]))
            if seen is None:
                # the test may be written out in place
                alt = [t for t in g["pc"] if t[0] != "k" and mentions(t, g["name"]) and (template_of(t) & code) and any(mentions(t, k) for k in kind)]
                if not alt:
                    ctx.violation("C04:%s:untested" % ent, "Runtime::%s runs guest function %s without testing whether it is a constructor of the template that is run (at %s)"
                                  % (ent, short(g["name"] or UNIT, 60), g["where"]))
            ctx.sample("Runtime::%s: %s runs under is_ctor=%s" % (ent, short(g["name"] or UNIT, 60), seen))
    b = P.bodies.get(IS_CTOR)
    if b is not None:
        r = IsCtor()
        e = Engine(P, r)
        e.run(b, (), [("sym", "template"), ("sym", "name")])
        ctx.inc("abstract_states", e.stats["states"])
        T, N = ("sym", "template"), ("sym", "name")
        for v, pc, ev in r.rets:
            ctx.inc("constructor_test_paths")
            eqs = [x for t, x in pc.items() if t[0] == "bin" and t[1] == "Eq" and mentions(t, N) and mentions(t, T) and t[2][0] in ("item", "each", "sym") + ("call", "fld")]
            if any(t[0] == "call" and t[1].endswith("::contains") and mentions(t, N) and mentions(t, T) for t in subterms(v)):
                continue
            if v == TRUE:
                if 1 not in eqs:
                    ctx.violation("C04:is_ctor:true", "Template::is_ctor (%s) answers true for a name that it has not found equal to one of the constructors" % b.span)
            elif v == FALSE:
                done = [e for e in ev if e[0] == "more" and e[2] is False and mentions(e[1], T)]
                cut = [t for e in done for t in subterms(e[1]) if t[0] in ("slice", "skip") or (t[0] == "call" and t[1].split("::")[-1] in ("take", "skip", "filter", "step_by", "skip_while", "take_while"))]
                if not done or cut or 1 in eqs:
                    ctx.violation("C04:is_ctor:false", "Template::is_ctor (%s) answers false without having compared the name with every constructor" % b.span)

"""The resolved program: bodies, types, impls, as written by the dumper."""
import glob, json, os, re

from collections import defaultdict


class Body:
    __slots__ = ("path", "kind", "gen", "parent", "span", "argc", "locals", "names", "blocks", "promoted",
                 "crate", "abi", "export", "pub", "sig", "captures", "_live", "_heads", "owner")

    def __repr__(self):
        return "<Body %s>" % self.path


class Program:
    def __init__(self, d, extra=()):
        self.bodies = {}
        self.adts = {}
        self.impls = defaultdict(list)   # trait path -> [impl]
        self.traits = {}                 # trait path -> {item name: (path, has_default)}
        self.trait_items = {}            # item path -> (trait path, name, has_default)
        self.foreign = {}
        self.fenums = {}
        self.crates = {}
        files = sorted(glob.glob(os.path.join(d, "*.json")))
        for x in extra:
            files += sorted(glob.glob(os.path.join(d, x, "*.json")))
        for f in files:
            self._load(f)
        self._index()

    def _load(self, f):
        with open(f) as fh:
            d = json.load(fh)
        raw = d["types"]
        n = len(raw)
        memo = [None] * n
        busy = [False] * n

        def garg(a):
            if a is None:
                return None
            if isinstance(a, int):
                return ty(a)
            if a[0] == "param":
                return ("param", a[1], a[2])
            if a[0] == "cv":
                return ("cv", int(a[1]))
            return ("c?", a[1])

        def ty(i):
            if memo[i] is not None:
                return memo[i]
            if busy[i]:
                return ("rec", i)
            busy[i] = True
            t = raw[i]
            k = t[0]
            if k == "p":
                r = ("p", t[1])
            elif k in ("adt", "fn", "closure", "coroutine", "proj", "inh", "free"):
                r = (k, t[1], tuple(garg(a) for a in t[2]))
            elif k == "array":
                r = ("array", ty(t[1]), garg(t[2]))
            elif k == "slice":
                r = ("slice", ty(t[1]))
            elif k in ("ptr", "ref"):
                r = (k, ty(t[1]), t[2])
            elif k == "fnptr":
                r = ("fnptr", tuple(ty(x) for x in t[1]))
            elif k == "dyn":
                r = ("dyn", tuple((p, tuple(garg(a) for a in aa)) for p, aa in t[1]))
            elif k == "tuple":
                r = ("tuple", tuple(ty(x) for x in t[1]))
            elif k == "opaque":
                r = ty(t[2])
            elif k == "param":
                r = ("param", t[1], t[2])
            else:
                r = ("?", t[1])
            busy[i] = False
            memo[i] = r
            return r

        import sys
        sys.setrecursionlimit(100000)
        cr = d["crate"]
        self.crates[cr] = {"features": d["features"], "bodies": len(d["bodies"]), "stolen": d["stolen"]}

        def conv_op(o):
            if o[0] in ("c", "m"):
                return ("pl", conv_place(o[1]))
            if o[0] == "k":
                return ("k", ty(o[1]), tuple(tuple(x) if isinstance(x, list) else x for x in o[2]) if o[2][0] != "generic"
                        else ("generic", tuple(garg(a) for a in o[2][1])), o[3] if len(o) > 3 else None)
            return ("rc",)

        def conv_place(p):
            pr = []
            for e in p[1:]:
                if e == "*":
                    pr.append(("*",))
                elif e[0] == ".":
                    pr.append((".", e[1], e[2] or str(e[1]), e[3]))
                elif e[0] == "[]":
                    pr.append(("[]", e[1]))
                elif e[0] == "as":
                    pr.append(("as", e[1], e[2]))
                elif e[0] == "[c]":
                    pr.append(("[c]", e[1], e[2]))
                elif e[0] == "[s]":
                    pr.append(("[s]", e[1], e[2], e[3]))
                else:
                    pr.append(("?",))
            return (p[0], tuple(pr))

        def conv_rv(r):
            k = r[0]
            if k == "use":
                return ("use", conv_op(r[1]))
            if k == "repeat":
                return ("repeat", conv_op(r[1]), garg(r[2]))
            if k == "ref":
                return ("ref", r[1], conv_place(r[2]))
            if k == "cast":
                return ("cast", r[1], conv_op(r[2]), ty(r[3]))
            if k == "bin":
                return ("bin", r[1], conv_op(r[2]), conv_op(r[3]))
            if k == "un":
                return ("un", r[1], conv_op(r[2]))
            if k == "discr":
                return ("discr", conv_place(r[1]))
            if k == "agg":
                a = r[1]
                ops = tuple(conv_op(o) for o in r[2])
                if a[0] == "adt":
                    kk = ("adt", a[1], a[2], a[3], tuple(garg(x) for x in a[4]), tuple(a[5]), a[6])
                elif a[0] in ("closure", "coroutine", "coroutineclosure"):
                    kk = (a[0], a[1], tuple(garg(x) for x in a[2]))
                elif a[0] == "array":
                    kk = ("array", ty(a[1]))
                else:
                    kk = (a[0],)
                return ("agg", kk, ops)
            return tuple([k] + [str(x) for x in r[1:]])

        def conv_body(b, path):
            B = Body()
            B.path = path
            B.crate = cr
            B.argc = b["argc"]
            B.locals = [ty(x) for x in b["locals"]]
            B.names = {}
            for nm, pl in b["names"]:
                p = conv_place(pl)
                if not p[1]:
                    B.names.setdefault(p[0], nm)
            B.blocks = []
            for bb in b["blocks"]:
                st = []
                for s in bb["s"]:
                    if s[0] == "=":
                        st.append(("=", conv_place(s[1]), conv_rv(s[2])))
                    elif s[0] == "sd":
                        st.append(("sd", conv_place(s[1]), s[2]))
                t = bb["t"]
                k = t[0]
                if k == "switch":
                    tt = ("switch", conv_op(t[1]), tuple((int(v), x) for v, x in t[2]), t[3], ty(t[4]))
                elif k == "drop":
                    tt = ("drop", conv_place(t[1]), t[2], ty(t[3]))
                elif k == "call":
                    tt = ("call", conv_op(t[1]), tuple(conv_op(a) for a in t[2]), conv_place(t[3]), t[4], ty(t[5]), t[6], t[7])
                elif k == "assert":
                    x = t[4]
                    if t[3] == "bounds":
                        x = (conv_op(x[0]), conv_op(x[1]))
                    elif t[3] == "overflow":
                        x = (x[0], conv_op(x[1]), conv_op(x[2]))
                    else:
                        x = ()
                    tt = ("assert", conv_op(t[1]), t[2], t[3], x, t[5])
                elif k == "yield":
                    tt = ("yield", t[1], conv_place(t[2]))
                else:
                    tt = tuple(t)
                B.blocks.append((tuple(st), tt, bb["sp"], bb.get("cl", 0)))
            B._live = None
            B._heads = None
            return B

        for b in d["bodies"]:
            p = b["path"]
            if p in self.bodies:
                i = 2
                while "%s#%d" % (p, i) in self.bodies:
                    i += 1
                p = "%s#%d" % (p, i)
            B = conv_body(b, p)
            B.kind = b["kind"]
            B.gen = b["gen"]
            par = b["parent"]
            B.parent = None if par is None else (("trait", par[1]) if par[0] == "trait" else ("impl", ty(par[1])))
            B.span = b["span"]
            B.abi = b.get("abi")
            B.export = b.get("export")
            B.pub = b.get("pub", False)
            B.captures = b.get("captures")
            B.sig = (tuple(ty(x) for x in b["sig"][0]), ty(b["sig"][1])) if "sig" in b else None
            B.promoted = []
            for i, pb in enumerate(b["promoted"]):
                PB = conv_body(pb, p + "::{promoted#%d}" % i)
                PB.kind = "promoted"
                PB.span = b["span"]
                PB.promoted = []
                PB.gen = b["gen"]
                PB.captures = None
                B.promoted.append(PB)
            self.bodies[p] = B
        for a in d["adts"]:
            vs = []
            for nm, dv, fs in a["variants"]:
                vs.append((nm, int(dv), tuple((fn, ty(ft), vis) for fn, ft, vis in fs)))
            self.adts[a["path"]] = {"gen": a["gen"], "kind": a["kind"], "variants": vs, "span": a["span"], "crate": cr, "reprc": a["reprc"]}
        for im in d["impls"]:
            I = {"trait": im["trait"], "args": tuple(garg(a) for a in im["args"]), "gen": im["gen"],
                 "items": {nm: (k, p, ty(t) if t is not None else None) for nm, k, p, t in im["items"]},
                 "span": im["span"], "crate": cr}
            self.impls[im["trait"]].append(I)
        for t in d["traits"]:
            its = {}
            for nm, p, has in t["items"]:
                its[nm] = (p, has)
                self.trait_items[p] = (t["path"], nm, has)
            self.traits[t["path"]] = its
        for k, vs in d["fenums"].items():
            self.fenums[k] = [(nm, int(dv), n) for nm, dv, n in vs]
        for fo in d["foreign"]:
            self.foreign[fo["path"]] = {"sig": (tuple(ty(x) for x in fo["sig"][0]), ty(fo["sig"][1])),
                                        "module": fo["module"], "span": fo["span"], "crate": cr}

    def _index(self):
        self.std_adts = {
            "core::option::Option": [("None", 0, ()), ("Some", 1, (("0", ("param", 0, "T"), True),))],
            "core::result::Result": [("Ok", 0, (("0", ("param", 0, "T"), True),)), ("Err", 1, (("0", ("param", 1, "E"), True),))],
            "core::ops::control_flow::ControlFlow": [("Continue", 0, (("0", ("param", 1, "C"), True),)), ("Break", 1, (("0", ("param", 0, "B"), True),))],
            "core::task::poll::Poll": [("Ready", 0, (("0", ("param", 0, "T"), True),)), ("Pending", 1, ())],
            "core::cmp::Ordering": [("Less", 255, ()), ("Equal", 0, ()), ("Greater", 1, ())],
            "alloc::borrow::Cow": [("Borrowed", 0, (("0", None, True),)), ("Owned", 1, (("0", None, True),))],
        }

    def variants(self, path):
        if path in self.adts:
            return self.adts[path]["variants"]
        return self.std_adts.get(path)

    # -- types -------------------------------------------------------------
    def subst(self, t, args):
        if t is None or not isinstance(t, tuple):
            return t
        k = t[0]
        if k == "param":
            if args is not None and t[1] < len(args) and args[t[1]] is not None:
                return args[t[1]]
            return t
        if k == "p" or k == "cv" or k == "c?" or k == "?" or k == "rec":
            return t
        if k in ("adt", "fn", "closure", "coroutine", "proj", "inh", "free"):
            na = tuple(self.subst(a, args) for a in t[2])
            if k == "proj":
                r = self.project(t[1], na)
                if r is not None:
                    return r
            return (k, t[1], na)
        if k == "array":
            return ("array", self.subst(t[1], args), self.subst(t[2], args))
        if k == "slice":
            return ("slice", self.subst(t[1], args))
        if k in ("ptr", "ref"):
            return (k, self.subst(t[1], args), t[2])
        if k in ("tuple", "fnptr"):
            return (k, tuple(self.subst(a, args) for a in t[1]))
        if k == "dyn":
            return ("dyn", tuple((p, tuple(self.subst(a, args) for a in aa)) for p, aa in t[1]))
        return t

    def project(self, item, args):
        """Normalise <args[0] as Trait>::Item."""
        ti = self.trait_items.get(item)
        if ti:
            tr, nm, _ = ti
        else:
            tr, _, nm = item.rpartition("::")
        r = self.find_impl(tr, args)
        if r:
            im, sub = r
            it = im["items"].get(nm)
            if it and it[2] is not None:
                return self.subst(it[2], sub)
        s = args[0] if args else None
        if s and item.endswith("::Iterator::Item") or item.endswith("::IntoIterator::Item"):
            if s[0] == "adt" and s[1].endswith("::Range") and s[2]:
                return s[2][0]
        return None

    def unify(self, pat, t, sub):
        if pat is None or t is None:
            return True
        if pat[0] == "param":
            i = pat[1]
            if i in sub:
                return self.same(sub[i], t)
            sub[i] = t
            return True
        if t[0] == "param":
            return False
        if pat[0] != t[0]:
            return False
        k = pat[0]
        if k in ("p", "cv", "c?", "?"):
            return pat[1] == t[1]
        if k in ("adt", "fn", "closure", "coroutine", "proj"):
            if pat[1] != t[1] or len(pat[2]) != len(t[2]):
                return False
            return all(self.unify(a, b, sub) for a, b in zip(pat[2], t[2]))
        if k == "array":
            return self.unify(pat[1], t[1], sub) and self.unify(pat[2], t[2], sub)
        if k == "slice":
            return self.unify(pat[1], t[1], sub)
        if k in ("ptr", "ref"):
            return pat[2] == t[2] and self.unify(pat[1], t[1], sub)
        if k in ("tuple", "fnptr"):
            return len(pat[1]) == len(t[1]) and all(self.unify(a, b, sub) for a, b in zip(pat[1], t[1]))
        if k == "dyn":
            return tuple(p for p, _ in pat[1]) == tuple(p for p, _ in t[1])
        return pat == t

    def same(self, a, b):
        s = {}
        return a == b or (self.unify(a, b, s) and not s)

    def find_impl(self, trait, args):
        best = None
        for im in self.impls.get(trait, ()):
            sub = {}
            if len(im["args"]) == len(args) and all(self.unify(p, a, sub) for p, a in zip(im["args"], args)):
                n = max(list(sub) + [-1]) + 1
                n = max(n, len(im["gen"]))
                v = tuple(sub.get(i) for i in range(n))
                # prefer the least generic impl
                score = (sum(1 for x in im["args"] if x and x[0] == "param"), len(sub))
                if best is None or score < best[2]:
                    best = (im, v, score)
        return (best[0], best[1]) if best else None

    def resolve(self, path, args):
        """callee (path, generic args) -> (Body or None, args, resolved path)"""
        ti = self.trait_items.get(path)
        if ti:
            tr, nm, has = ti
        elif path not in self.bodies and "::" in path:
            tr, _, nm = path.rpartition("::")
            has = False
            if tr not in self.impls:
                return None, args, path
        else:
            return self.bodies.get(path), args, path
        ntr = None
        for cand in self.impls.get(tr, ()):
            ntr = len(cand["args"])
            break
        if ntr is not None:
            r = self.find_impl(tr, tuple(args[:ntr]))
            if r:
                im, sub = r
                it = im["items"].get(nm)
                if it:
                    rest = tuple(args[ntr:])
                    return self.bodies.get(it[1]), tuple(sub[:len(im["gen"])]) + rest, it[1]
        if ti and has:
            return self.bodies.get(path), args, path
        return None, args, path


def tyname(t):
    if t is None:
        return "'_"
    k = t[0]
    if k == "p":
        return t[1]
    if k == "adt":
        a = [tyname(x) for x in t[2] if x is not None]
        return t[1].split("::")[-1] + ("<" + ",".join(a) + ">" if a else "")
    if k == "ref":
        return "&" + ("mut " if t[2] == "mut" else "") + tyname(t[1])
    if k == "ptr":
        return "*" + tyname(t[1])
    if k == "array":
        return "[%s;%s]" % (tyname(t[1]), t[2][1] if t[2] else "?")
    if k == "slice":
        return "[%s]" % tyname(t[1])
    if k == "tuple":
        return "(" + ",".join(tyname(x) for x in t[1]) + ")"
    if k == "param":
        return t[2]
    if k in ("fn", "closure", "coroutine"):
        return k + ":" + t[1]
    return k

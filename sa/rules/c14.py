"""C14: execution is a function of the state and the transaction: no clock, random, address or hash-order dependence."""
import re

from ..prog import tyname

RULE = ("no value obtained from a clock, a random generator, the environment, a memory address, a random hash seed or a process-wide counter reaches a branch, a stored value, a returned value or another function "
        "of the executing code; and no enumeration of a hash map or hash set has an effect that depends on its order: "
        "its elements may be inserted into maps and sets, combined by commutative operations, written to distinct database rows or sorted before use, but not written, hashed, picked or listed in the order they come")
EXPLAIN = ("Interprocedural order-taint and source-taint dataflow over the MIR of every function of the host crates: values of unordered iterator types (and sequences built from them) are followed through adaptors, "
           "loops, closures, callees and returns until they are sorted, collected into an unordered container, or reach an order-sensitive operation. Effects outside the known ones are not judged. No execution.")
FLOORS = {"functions": 400}
ASSUME = ["the WASM engine executes deterministically (floats are refused by C16's rule)",
          "library functions are deterministic apart from the listed sources",
          "an effect of a library function that is not known to depend on the order of calls does not"]

CRATES = {"svm_types", "svm_codec", "svm_gas", "svm_program", "svm_state", "svm_runtime", "svm_layout", "svm_hash", "svm_genesis_config",
          "svm_runtime_ffi", "svm_abi_layout", "svm_abi_encoder", "svm_abi_decoder"}
UNORD = re.compile(r"^(std::collections::hash::(map|set)|hashbrown::(map|set|table|raw)|hashbrown::\w+)::(Iter|IterMut|Keys|Values|ValuesMut|IntoIter|IntoKeys|IntoValues|Drain|Union|Difference|Intersection|SymmetricDifference|ExtractIf)\b")
HASHED = re.compile(r"^(std::collections::hash::(map|set)|hashbrown::(map|set))::Hash(Map|Set)$")
ORDERED = ("::Vec", "::VecDeque", "::String", "::LinkedList", "::IndexMap", "::IndexSet", "::Box", "::Cow", "::Rc", "::Arc", "::PathBuf", "::OsString")
SET = ("::HashMap", "::HashSet", "::BTreeMap", "::BTreeSet", "::BinaryHeap")
SOURCES = re.compile(
    r"^std::time::(Instant::(now|elapsed)|SystemTime::(now|elapsed))$|^(chrono|time)::.*::now(_utc|_local)?$|^rand(_core|_chacha|_os)?::|^(getrandom|fastrand|uuid|nanorand|oorandom)::|"
    r"^std::env::(var|vars|var_os|vars_os|args|args_os|current_dir|temp_dir|current_exe)$|^std::process::id$|^std::thread::(current|available_parallelism|Thread::id)|^num_cpus::|"
    r"^(std::hash::random|std::collections::hash_map|std::collections::hash::map)::RandomState.*build_hasher|^core::hash::BuildHasher::(build_hasher|hash_one)$|^std::hash::BuildHasher|"
    r"^core::fmt::rt::Argument.*::new_pointer$|^core::sync::atomic::Atomic\w*(::<.*>)?::(load|swap|fetch_\w+)$|^std::thread::local::LocalKey|^hostname::|^std::net::|^std::fs::(read|read_to_string|metadata)")
STATIC_ONLY = re.compile(r"^core::sync::atomic|^std::thread::local|^core::hash::BuildHasher")
PURE = re.compile(r"::(len|is_empty|contains|contains_key|count|sum|product|max|min|all|any|get|eq|ne|is_some|is_none|size_hint|capacity|drop|drop_in_place|max_by|min_by|max_by_key|min_by_key|is_subset|is_superset|is_disjoint)$")
PICK = re.compile(r"::(find|position|nth|last|first|find_map|reduce|next_back|rposition|peek|pop|pop_front|swap_remove|join|concat|eq_by|cmp|partial_cmp|lt|le|zip|enumerate|take|skip|step_by|take_while|skip_while|map_while|windows|chunks|split_first|split_last)$")
SORT = re.compile(r"::sort(_unstable)?(_by|_by_key|_by_cached_key)?$|::sorted(_unstable)?(_by|_by_key)?$")
COLLECT = re.compile(r"::(collect|from_iter|try_collect|collect_vec|unzip|partition)$")
FOLD = re.compile(r"::(fold|try_fold|for_each|try_for_each|rfold|scan|inspect)$")
SEQADD = re.compile(r"(Vec(Deque)?|LinkedList|IndexMap|IndexSet|String)::(<.*>::)?(push|push_back|push_front|insert|extend|extend_from_slice|append|push_str|insert_full)$|^core::iter::traits::collect::Extend::extend$")
SETADD = re.compile(r"(HashMap|HashSet|BTreeMap|BTreeSet|BinaryHeap)::(<.*>::)?(insert|remove|entry|extend|replace|push|get_mut|retain|clear)$|Entry::(<.*>::)?\w+$")
WRITE = re.compile(r"^std::io::(Write::)?\w*write\w*|::WriteExt::\w+$|::io::Write::\w+$|^core::fmt::Write::\w+$|Hasher::(<.*>::)?(update|write\w*|chain|input)$|^core::hash::(Hash::hash|Hasher::write\w*)$|^digest::|^(blake3|sha\d?|sha3|twox_hash)::\w+::\w+$|^serde(_json)?::ser::|Serialize\w+::serialize\w*$")
ENCODE = re.compile(r"::Codec::(encode|encode_to_vec|fixed_size)$|^serde(_json)?::.*(to_value|to_vec|to_string|to_writer|serialize)$|ToSvmVar|^core::fmt::rt::Argument.*::new_(debug|display)$")
OPS = re.compile(r"^core::ops::(bit|arith)::(BitXor|BitOr|BitAnd|Add|Mul)(Assign)?::\w+$|::(wrapping|saturating|checked|overflowing)_(add|mul)$|::(max|min)$")
PERMUTE = re.compile(r"^core::slice::.*::(rotate_left|rotate_right|reverse|swap|copy_within)$")
ARITH = re.compile(r"::(?:wrapping_|saturating_|checked_|overflowing_)?(add|mul|bitxor|bitor|bitand|shl|shr|rotate_left|rotate_right|swap_bytes|reverse_bits|add_assign|mul_assign|bitxor_assign|bitor_assign|bitand_assign|shl_assign|shr_assign)$")
HASHFN = re.compile(r"Hasher::(<.*>::)?(hash|digest|hash_\w+|finalize\w*|finish)$|^blake3::hash|^(sha\d?|sha3)::.*digest|::digest$|^crypto::")
ITERISH = re.compile(r"^core::iter::|^core::slice::iter|^alloc::vec::into_iter|^alloc::vec::drain|^core::option::|^core::result::|::deref$|::deref_mut$|::borrow$|::borrow_mut$|::as_ref$|::as_mut$|::clone$|::cloned$|::copied$|::to_vec$|::to_owned$|::into$|::from$|::as_slice$|::as_mut_slice$|::into_iter$|::iter$|::iter_mut$|::unwrap$|::expect$|::into_boxed_slice$|::into_vec$|::branch$|::from_output$|::index$|::index_mut$|::chars$|::bytes$|::as_bytes$|::into_inner$|::drain$")


def has(t, pr, depth=0):
    if not isinstance(t, tuple) or depth > 12:
        return False
    if t and t[0] == "adt" and pr(t[1]):
        return True
    if t and t[0] in ("closure", "fn", "coroutine"):
        return False
    return any(has(x, pr, depth + 1) for x in t if isinstance(x, tuple))


def unord_ty(t):
    return has(t, lambda p: bool(UNORD.match(p)))


def container(t):
    """'seq' / 'set' / None: what a collect builds."""
    while t and t[0] in ("ref", "ptr"):
        t = t[1]
    if not t:
        return None
    if t[0] == "adt":
        if t[1] in ("core::result::Result", "core::option::Option", "core::ops::control_flow::ControlFlow", "core::task::poll::Poll"):
            r = [container(x) for x in t[2][:1]]
            return r[0] if r else None
        if t[1].endswith(SET):
            return "set"
        if t[1].endswith(("::Box", "::Rc", "::Arc", "::Cow")):
            return "seq"
        if t[1].endswith(ORDERED):
            return "seq"
        return None
    if t[0] == "tuple":
        cs = {container(x) for x in t[1]}
        return "seq" if "seq" in cs else None
    if t[0] in ("slice", "array"):
        return "seq"
    return None


def callee(t):
    f = t[1]
    if f[0] == "k" and f[1][0] in ("fn", "closure"):
        return f[1][1], f[1][2]
    return None, ()


def ops_of(rv):
    k = rv[0]
    if k in ("use", "repeat", "un"):
        return [rv[2] if k == "un" else rv[1]]
    if k == "cast":
        return [rv[2]]
    if k == "bin":
        return [rv[2], rv[3]]
    if k == "agg":
        return list(rv[2])
    if k == "ref":
        return [("pl", rv[2])]
    if k == "discr":
        return [("pl", rv[1])]
    return []


def succ(t):
    k = t[0]
    if k == "switch":
        return [x for _, x in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[5]] if t[5] is not None else []
    if k == "yield":
        return [t[1]]
    if k == "goto":
        return [t[1]]
    return [x for x in t[1:] if isinstance(x, int)][:1] if k not in ("ret", "unreachable", "resume", "abort", "?") else []


class Flow:
    """Facts about one body that don't depend on taint."""

    def __init__(self, P, b):
        self.b = b
        n = len(b.blocks)
        self.succ = [[s for s in succ(b.blocks[i][1]) if isinstance(s, int) and s < n] for i in range(n)]
        self.roots = {}          # local -> set of locals it may point into / be a part of
        self.defs = {}           # local -> set of blocks that assign it as a whole
        self._alias()
        self._scc()

    def _alias(self):
        b = self.b
        edges = {}
        for i, (st, t, sp, cl) in enumerate(b.blocks):
            for s in st:
                if s[0] != "=":
                    continue
                d = s[1][0]
                if not s[1][1]:
                    self.defs.setdefault(d, set()).add(i)
                if s[1][1]:
                    continue
                rv = s[2]
                if rv[0] in ("ref", "use", "cast", "agg"):
                    for o in ops_of(rv):
                        if o[0] == "pl":
                            ty = b.locals[d]
                            if rv[0] == "ref" or ty and (ty[0] in ("ref", "ptr", "adt", "closure", "tuple", "coroutine")):
                                edges.setdefault(d, set()).add(o[1][0])
            if t[0] == "call":
                d = t[3][0]
                if not t[3][1]:
                    self.defs.setdefault(d, set()).add(i)
                p, _ = callee(t)
                ty = b.locals[d]
                if p and ty and not t[3][1] and (ITERISH.search(p) or ty[0] in ("ref", "ptr")):
                    for a in t[2][:1]:
                        if a[0] == "pl":
                            edges.setdefault(d, set()).add(a[1][0])
        for l in list(edges):
            seen, work = set(), [l]
            while work:
                x = work.pop()
                for y in edges.get(x, ()):
                    if y not in seen:
                        seen.add(y)
                        work.append(y)
            self.roots[l] = seen

    def family(self, l):
        return {l} | self.roots.get(l, set())

    def _scc(self):
        """Blocks that lie on a cycle, grouped."""
        n = len(self.succ)
        idx, low, on, stack, comp = [None] * n, [0] * n, [False] * n, [], [None] * n
        c = [0]
        for r in range(n):
            if idx[r] is not None:
                continue
            work = [(r, 0)]
            while work:
                v, i = work.pop()
                if i == 0:
                    idx[v] = low[v] = c[0]
                    c[0] += 1
                    stack.append(v)
                    on[v] = True
                rec = False
                for j in range(i, len(self.succ[v])):
                    w = self.succ[v][j]
                    if idx[w] is None:
                        work.append((v, j + 1))
                        work.append((w, 0))
                        rec = True
                        break
                    if on[w]:
                        low[v] = min(low[v], idx[w])
                if rec:
                    continue
                if low[v] == idx[v]:
                    grp = []
                    while True:
                        w = stack.pop()
                        on[w] = False
                        grp.append(w)
                        if w == v:
                            break
                    cyc = len(grp) > 1 or v in self.succ[v]
                    for w in grp:
                        comp[w] = frozenset(grp) if cyc else None
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
        self.comp = comp

    def loop(self, blk):
        """The innermost cycle through a block (a natural loop), or None."""
        c = self.comp[blk]
        if c is None:
            return None
        # innermost: remove other headers? restrict to blocks from which blk is reachable without leaving through an enclosing header
        best = c
        # nested: a block that is the target of a back edge inside c, other than those on the way to blk
        fw = self._reach(blk, c)
        bw = {x for x in c if blk in self._reach1(x, c)}
        best = frozenset(fw & (bw | {blk}))
        return best

    def _reach(self, s, c):
        seen, work = {s}, [s]
        while work:
            x = work.pop()
            for y in self.succ[x]:
                if y in c and y not in seen:
                    seen.add(y)
                    work.append(y)
        return seen

    def _reach1(self, s, c):
        return self._reach(s, c)


class Det:
    def __init__(self, ctx):
        self.ctx = ctx
        self.P = ctx.P
        self.flows = {}
        self.memo = {}
        self.eff = {}
        self.seen_loops = set()
        self.judged = set()

    def flow(self, b):
        f = self.flows.get(id(b))
        if f is None:
            f = self.flows[id(b)] = Flow(self.P, b)
        return f

    def bad(self, b, sp, what):
        self.ctx.violation("C14:%s:%s" % (b.path, what[:40]), "%s (in %s, at %s)" % (what, b.path, sp))

    # ---- order taint of one body given tainted arguments; returns whether the result is in arbitrary order
    def order(self, b, tainted=frozenset(), depth=0):
        key = (b.path, tainted)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False
        fl = self.flow(b)
        base = {l for l, t in enumerate(b.locals) if t and unord_ty(t)} | set(tainted)
        ins = {0: frozenset(tainted)}
        work = [0]
        rets = False
        while work:
            i = work.pop()
            cur = set(ins[i])
            cur = self.block(b, fl, i, cur, base, depth, report=False)
            for s in fl.succ[i]:
                old = ins.get(s)
                new = frozenset(cur) if old is None else old | cur
                if old is None or new != old:
                    ins[s] = new
                    work.append(s)
        for i in sorted(ins):
            cur = self.block(b, fl, i, set(ins[i]), base, depth, report=True)
            if b.blocks[i][1][0] == "ret" and 0 in cur:
                rets = True
        if b.locals[0] and unord_ty(b.locals[0]):
            rets = True
        self.memo[key] = rets
        return rets

    def element(self, pl):
        """Does the place select one element of a sequence?"""
        return any(x[0] in ("[]", "[c]") for x in pl[1])

    def isU(self, fl, cur, base, o):
        if o[0] != "pl":
            return False
        return o[1][0] in cur or o[1][0] in base

    def block(self, b, fl, i, cur, base, depth, report):
        st, t, sp, cl = b.blocks[i]
        for s in st:
            if s[0] != "=":
                continue
            d, pr = s[1]
            rv = s[2]
            u = [o for o in ops_of(rv) if o[0] == "pl" and o[1][0] in cur and b.locals[o[1][0]]]
            if rv[0] == "agg" and rv[1][0] == "adt" and u:
                path = rv[1][1]
                if path.startswith("svm_types::") and report:
                    self.bad(b, sp, "a %s is built from elements in the order a hash map or set yields them" % path.split("::")[-1])
                elif path.startswith(("core::", "std::")):
                    cur.add(d)
                continue
            if u and rv[0] in ("use", "ref") and all(self.element(o[1]) for o in u):
                continue
            if rv[0] in ("use", "ref", "cast", "agg") and u:
                if not pr or b.locals[d] and b.locals[d][0] == "tuple":
                    cur.add(d)
            elif not pr and d in cur and rv[0] in ("use", "agg", "repeat", "bin"):
                cur.discard(d)
        if t[0] != "call":
            return cur
        p, targs = callee(t)
        dest = t[3][0]
        args = t[2]
        U = [k for k, a in enumerate(args) if self.isU(fl, cur, base, a)]
        # a loop over unordered elements
        if p and p.endswith("Iterator::next") and U:
            lp = fl.loop(i)
            if lp is None:
                if report and self.used(b, fl, dest):
                    self.ctx.inc("unordered_enumerations")
                    self.bad(b, sp, "an arbitrary element of a hash map or set is picked")
                return cur
            if report and (b.path, i) not in self.seen_loops:
                self.seen_loops.add((b.path, i))
                self.ctx.inc("unordered_enumerations")
                self.ctx.sample("loop over unordered elements in %s at %s" % (b.path, sp))
            for r in self.loop_effects(b, fl, lp, i, args[0][1][0], depth, report):
                cur.add(r)
            return cur
        if not U:
            if p and not t[3][1]:
                if not (ITERISH.search(p)):
                    cur.discard(dest)
                elif not any(a[0] == "pl" and a[1][0] in cur for a in args):
                    cur.discard(dest)
            # workspace callee that itself returns something unordered
            body, rt, rp = self.P.resolve(p, targs) if p else (None, (), None)
            if body is not None and body.crate in CRATES and depth < 12 and not t[3][1]:
                if self.order(body, frozenset(), depth + 1):
                    cur.add(dest)
            return cur
        if p is None:
            return cur
        if SORT.search(p):
            for a in args[:1]:
                if a[0] == "pl":
                    for r in fl.family(a[1][0]):
                        cur.discard(r)
            if "sorted" in p and not t[3][1]:
                cur.discard(dest)
            return cur
        dty = b.locals[dest]
        if COLLECT.search(p):
            k = container(dty)
            if report:
                self.ctx.inc("unordered_enumerations")
            if k == "seq":
                cur.add(dest)
            else:
                cur.discard(dest)
            return cur
        if FOLD.search(p):
            if report:
                self.ctx.inc("unordered_enumerations")
            for a in args[1:]:
                ty = b.locals[a[1][0]] if a[0] == "pl" else (a[1] if a[0] == "k" else None)
                if ty and ty[0] in ("closure", "fn"):
                    cb, _, _ = self.P.resolve(ty[1], ty[2])
                    if cb is not None:
                        params = range(1, cb.argc + 1) if ty[0] == "fn" else range(1, cb.argc + 1)
                        for k in params:
                            for e in self.effects(cb, k, depth + 1):
                                self.judge(b, sp, e, report)
                                if e[0] == "seq":
                                    cur.add(dest)
            return cur
        if PURE.search(p):
            if not t[3][1]:
                cur.discard(dest)
            return cur
        if SEQADD.search(p):
            if 0 not in U and args and args[0][0] == "pl":
                for r in fl.family(args[0][1][0]):
                    if container(b.locals[r]) == "seq" and b.locals[r][0] == "adt":
                        cur.add(r)
            return cur
        if SETADD.search(p):
            return cur
        if PICK.search(p) and re.search(r"iter|slice|Vec", p):
            seqish = not unord_ty(dty)
            if report and (p.endswith(("::zip", "::enumerate", "::take", "::skip", "::step_by", "::nth", "::last", "::first", "::find", "::find_map", "::position", "::reduce", "::pop", "::peek", "::join", "::concat",
                                       "::pop_front", "::take_while", "::skip_while", "::map_while"))):
                if p.endswith(("::zip", "::enumerate", "::take", "::skip", "::step_by", "::take_while", "::skip_while", "::map_while")) or self.used(b, fl, dest):
                    self.bad(b, sp, "`%s` depends on the order a hash map or set yields its elements in" % p.split("::")[-1])
            if not t[3][1]:
                cur.add(dest) if not seqish else None
            return cur
        if WRITE.search(p) or ENCODE.search(p):
            if report and not re.search(r"new_(debug|display)", p):
                self.bad(b, sp, "`%s` is given elements in the order a hash map or set yields them" % p.split("::")[-1])
            return cur
        body, rt, rp = self.P.resolve(p, targs)
        if body is not None and body.crate in CRATES and depth < 12:
            if ENCODE.search(rp) or rp.endswith("::encode"):
                if report:
                    self.bad(b, sp, "`%s` is given elements in the order a hash map or set yields them" % rp.split("::")[-1])
                return cur
            r = self.order(body, frozenset(k + 1 for k in U), depth + 1)
            if not t[3][1]:
                cur.add(dest) if r else cur.discard(dest)
            return cur
        if not t[3][1]:
            if ITERISH.search(p) or unord_ty(dty):
                cur.add(dest)
        return cur

    def used(self, b, fl, l):
        """Is the local (or a part of it) read for anything but a discriminant?"""
        fam = {x for x in fl.roots if l in fl.roots[x]} | {l}
        for st, t, sp, cl in b.blocks:
            for s in st:
                if s[0] == "=" and s[2][0] != "discr" and any(o[0] == "pl" and o[1][0] in fam and o[1][1] for o in ops_of(s[2])):
                    return True
            if t[0] == "call" and any(a[0] == "pl" and a[1][0] in fam for a in t[2]):
                p, _ = callee(t)
                if not (p and PURE.search(p)):
                    return True
        return l == 0

    # ---- effects of a loop body on what outlives an iteration
    def loop_effects(self, b, fl, lp, head, it, depth, report):
        outs = set()
        skip = fl.family(it) | {x for x in fl.roots if it in fl.roots[x]}
        inner = {l for l, ds in fl.defs.items() if ds <= lp and l > b.argc}
        items = self.derived(b, fl, lp, head)

        def outer(l):
            fam = fl.family(l)
            if fam & skip and not (fam - skip):
                return None
            # a reference to something created in this iteration does not outlive it
            rs = [r for r in fam if not fl.roots.get(r)]
            if all(r in inner for r in rs):
                return None
            return [r for r in rs if r not in inner]
        for i in lp:
            st, t, sp, cl = b.blocks[i]
            if t[0] != "call" or i == head:
                continue
            p, targs = callee(t)
            if p is None:
                continue
            for k, a in enumerate(t[2]):
                if a[0] != "pl":
                    continue
                ty = b.locals[a[1][0]]
                if not self.mutable(ty):
                    continue
                o = outer(a[1][0])
                if not o:
                    continue
                for e in self.call_effect(b, t, p, targs, k, sp, depth):
                    if e[0] == "seq":
                        tgt = [r for r in o if container(b.locals[r]) == "seq"]
                        if tgt:
                            outs |= set(tgt)
                            continue
                        if any(b.locals[r] and unord_ty(b.locals[r]) for r in o):
                            continue
                    self.judge(b, sp, e, report)
        # acc = hash(acc, item)
        for i in lp:
            st, t, sp, cl = b.blocks[i]
            for x in [(s[1][0], None) for s in st if s[0] == "="] + ([(t[3][0], t)] if t[0] == "call" else []):
                l = x[0]
                if l in inner or l in skip or not b.locals[l] or b.locals[l][0] in ("ref", "ptr"):
                    continue
                sl, fns = self.inputs(b, fl, lp, l)
                if l in sl and any(HASHFN.search(p) for p in fns):
                    self.judge(b, sp, ("write", "a hash is chained", sp), report)
                elif l in sl and self.noncommuting(b, fl, lp, head, l):
                    self.judge(b, sp, ("write", "a value is accumulated by operations that do not commute", sp), report)
        return outs

    def noncommuting(self, b, fl, lp, head, l):
        """Is l = f(l, item) with operations on l of more than one kind (or a shift)?"""
        back, ops = {}, []
        for i in lp:
            st, t, sp, cl = b.blocks[i]
            for s in st:
                if s[0] != "=":
                    continue
                src = [o[1][0] for o in ops_of(s[2]) if o[0] == "pl"]
                back.setdefault(s[1][0], set()).update(src)
                if s[2][0] == "bin" and src:
                    ops.append((s[2][1].replace("WithOverflow", "").replace("Unchecked", "").lower(), s[1][0], src))
            if t[0] == "call":
                p = callee(t)[0] or ""
                src = [a[1][0] for a in t[2] if a[0] == "pl"]
                m = ARITH.search(p)
                if m and (p.startswith("core::num") or p.startswith("core::ops")) and src:
                    d = t[3][0]
                    back.setdefault(d, set()).update(src)
                    ops.append((m.group(1).replace("_assign", ""), d, src))
                elif i == head or self.P.resolve(p, callee(t)[1])[0] is None if p else False:
                    back.setdefault(t[3][0], set()).update(src)

        def reach(x):
            seen, work = set(), [x]
            while work:
                for z in back.get(work.pop(), ()):
                    if z not in seen:
                        seen.add(z)
                        work.append(z)
            return seen
        mine = reach(l)
        item = b.blocks[head][1][3][0]
        if item not in mine or l not in mine:
            return False
        kinds = {"add" if k == "sub" else k for k, d, src in ops if d in mine | {l} and (l == d or l in reach(d)) and any(x == l or l in reach(x) for x in src)} - {"rem", "eq", "ne", "lt", "le", "gt", "ge", "cmp"}
        return len(kinds) > 1 or bool(kinds & {"shl", "shr", "rotate_left", "rotate_right"})

    def inputs(self, b, fl, lp, l):
        """Locals that flow into what is assigned to a local inside the loop, and the functions on the way."""
        seen, fns = set(), set()
        work = [l]
        first = True
        done = set()
        while work:
            x = work.pop()
            if x in done:
                continue
            done.add(x)
            if not first:
                seen.add(x)
            first = False
            ws = []
            for i in lp:
                st, tt, sp, cl = b.blocks[i]
                for s in st:
                    if s[0] == "=" and s[1][0] == x:
                        ws += [o[1][0] for o in ops_of(s[2]) if o[0] == "pl"]
                if tt[0] == "call":
                    p = callee(tt)[0]
                    args = [a[1][0] for a in tt[2] if a[0] == "pl"]
                    if tt[3][0] == x:
                        ws += args
                        fns.add(p or "")
                    # what is changed through a mutable argument
                    elif any(x in fl.family(a) and self.mutable(b.locals[a]) for a in args if x != a):
                        if p and OPS.search(p):
                            continue
                        body = self.P.resolve(p, callee(tt)[1])[0] if p else None
                        if body is not None and not WRITE.search(p):
                            continue
                        ws += [a for a in args if x not in fl.family(a)]
                        fns.add(p or "")
            if l in ws:
                seen.add(l)
            work += ws
        return seen, fns

    def derived(self, b, fl, lp, head):
        return set()

    def mutable(self, ty):
        """Can a callee change something outside through this argument?"""
        if not ty:
            return False
        if ty[0] in ("ref", "ptr"):
            return ty[2] == "mut" or has(ty[1], lambda p: p.endswith(("::RefCell", "::Cell", "::Mutex", "::RwLock", "FuncEnv", "::Storage", "GlobalState", "AccountStorage")))
        if ty[0] == "param":
            return True
        return has(ty, lambda p: p.endswith(("::RefMut", "::MutexGuard", "Pin", "::RefCell")))

    def judge(self, b, sp, e, report):
        if e[0] == "write" and report:
            self.bad(b, sp, "%s in the order a hash map or set yields its elements (reached at %s)" % (e[1], e[2]))
        elif e[0] == "seq" and report:
            self.ctx.inc("not_judged")
            self.ctx.undecided.append("%s: elements appended at %s in hash order to a sequence that is not followed" % (b.path, e[2]))

    def call_effect(self, b, t, p, targs, k, sp, depth):
        """[(kind, text, where)] of passing something that outlives the iteration as argument k."""
        if SETADD.search(p) or OPS.search(p) or PURE.search(p):
            return []
        if SEQADD.search(p):
            return [("seq", "elements are appended", sp)] if k == 0 else []
        if PERMUTE.search(p) and k == 0:
            return [("write", "what was accumulated is permuted by `%s`" % p.split("::")[-1], sp)]
        if WRITE.search(p) or p.endswith("::Codec::encode") and k == 1:
            return [("write", "bytes are written by `%s`" % "::".join(p.split("::")[-2:]), sp)]
        body, rt, rp = self.P.resolve(p, targs)
        if body is not None and body.crate in CRATES and depth < 10:
            return list(self.effects(body, k + 1, depth + 1))
        return []

    def effects(self, b, k, depth):
        """Order-sensitive effects of a function on its k-th argument."""
        key = (b.path, k)
        if key in self.eff:
            return self.eff[key]
        self.eff[key] = set()
        fl = self.flow(b)
        out = set()
        for i, (st, t, sp, cl) in enumerate(b.blocks):
            if t[0] != "call" or cl:
                continue
            p, targs = callee(t)
            if p is None:
                continue
            for j, a in enumerate(t[2]):
                if a[0] != "pl" or k not in fl.family(a[1][0]):
                    continue
                if not (self.mutable(b.locals[a[1][0]])):
                    continue
                # sets and maps reached inside the argument absorb order
                for e in self.call_effect(b, t, p, targs, j, sp, depth):
                    out.add(e)
        # a coroutine or closure body that captures the argument
        for i, (st, t, sp, cl) in enumerate(b.blocks):
            for s in st:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] in ("closure", "coroutine"):
                    if any(o[0] == "pl" and k in fl.family(o[1][0]) for o in s[2][2]):
                        cb = self.P.bodies.get(s[2][1][1])
                        if cb is not None and depth < 10:
                            out |= self.effects(cb, 1, depth + 1)
        self.eff[key] = out
        return out

    # ---- nondeterminism sources
    def sources(self, b):
        fl = None
        for i, (st, t, sp, cl) in enumerate(b.blocks):
            if cl:
                continue
            src = None
            if t[0] == "call":
                p, targs = callee(t)
                if p and SOURCES.search(p):
                    src, l = p, t[3][0]
            if src:
                self.leak(b, l, src, sp)
            if b.crate in ("svm_types", "svm_codec", "svm_gas", "svm_program", "svm_state", "svm_runtime", "svm_hash", "svm_layout"):
                for s in st:
                    if s[0] == "=" and s[2][0] == "cast" and "Expose" in str(s[2][1]):
                        self.leak(b, s[1][0], "the address of an object", sp)

    def leak(self, b, l, src, sp):
        self.ctx.inc("sources")
        fl = self.flow(b)
        tainted = {l}
        changed = True
        hit = None
        while changed and hit is None:
            changed = False
            for st, t, sp2, cl in b.blocks:
                for s in st:
                    if s[0] != "=":
                        continue
                    if any(o[0] == "pl" and (o[1][0] in tainted) for o in ops_of(s[2])):
                        if s[1][1] and any(x[0] == "*" for x in s[1][1]):
                            hit = "is stored", sp2
                        if s[1][0] not in tainted:
                            tainted.add(s[1][0])
                            changed = True
                if t[0] == "switch" and t[1][0] == "pl" and t[1][1][0] in tainted and not self.tracing(b, t):
                    hit = "decides a branch", sp2
                if t[0] == "call":
                    p, targs = callee(t)
                    if any(a[0] == "pl" and (fl.family(a[1][0]) & tainted) for a in t[2]):
                        if p and re.search(r"^(tracing|log|tracing_core)::|^std::io::stdio::_e?print|^core::mem::drop$|^core::panicking|^std::process::", p):
                            continue
                        body, _, rp = self.P.resolve(p, targs) if p else (None, (), None)
                        if body is not None and body.crate in CRATES or p and (WRITE.search(p) or SETADD.search(p) or SEQADD.search(p)):
                            hit = "is passed to `%s`" % (rp or p).split("::")[-1], sp2
                        if t[3][0] not in tainted:
                            tainted.add(t[3][0])
                            changed = True
                if 0 in tainted and b.locals[0] != ("tuple", ()):
                    hit = "is returned", sp
                if hit:
                    break
        if hit:
            self.bad(b, sp, "a value that differs from run to run (%s) %s at %s" % (src, hit[0], hit[1]))

    def tracing(self, b, t):
        return False


def check(ctx):
    P = ctx.P
    d = Det(ctx)
    bodies = [b for p, b in sorted(P.bodies.items()) if b.crate in CRATES]
    for b in bodies:
        ctx.inc("functions")
        ctx.inc("call_sites", sum(1 for x in b.blocks if x[1][0] == "call"))
        d.order(b)
        d.sources(b)
        # unordered containers handed to a serializer as a whole
        for i, (st, t, sp, cl) in enumerate(b.blocks):
            if t[0] == "call":
                p, targs = callee(t)
                if p and re.search(r"^serde(_json)?::.*(to_value|to_vec|to_string|to_writer|to_string_pretty)$|::Serialize\w*::serialize\w*$", p):
                    if has(tuple(x for x in targs if x), lambda q: q.endswith("::HashSet") and bool(HASHED.match(q))):
                        d.bad(b, sp, "`%s` lists a hash set in the order it yields its elements" % p.split("::")[-1])

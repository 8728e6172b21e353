"""Transfer functions for the library functions the code base uses."""
import re
from .eng import *
from .prog import Body

M = {}
RX = []


def model(*names):
    def d(fn):
        for n in names:
            if n.startswith("~"):
                RX.append((re.compile(n[1:]), fn))
            else:
                M[n] = fn
        return fn
    return d


_cache = {}


def lookup(eng, path):
    if path in _cache:
        return _cache[path]
    n = norm(path)
    m = M.get(n)
    if m is None:
        for rx, fn in RX:
            if rx.search(n):
                m = fn
                break
    _cache[path] = m
    return m


def simple(fn):
    """Model computing a value from dereferenced argument values."""
    def m(eng, st, f, path, targs, args, dest, target, sp, sk):
        v = fn(eng, st, [eng.deref(st, a) for a in args], targs)
        if v is None:
            return None
        return eng.done(st, f, dest, target, v)
    return m


def ident(eng, st, f, path, targs, args, dest, target, sp, sk):
    return eng.done(st, f, dest, target, args[0])


def byval(eng, st, f, path, targs, args, dest, target, sp, sk):
    return eng.done(st, f, dest, target, eng.deref(st, args[0]))


# ---------------------------------------------------------------- identity
for n in """
core::convert::AsRef::as_ref
core::convert::AsMut::as_mut core::borrow::Borrow::borrow core::borrow::BorrowMut::borrow_mut
core::pin::Pin::new_unchecked core::pin::Pin::new core::future::into_future::IntoFuture::into_future
core::pin::Pin::get_mut core::pin::Pin::as_mut core::pin::Pin::get_unchecked_mut
core::cell::RefCell::borrow core::cell::RefCell::borrow_mut core::cell::RefCell::get_mut
core::cell::Ref::map core::cell::UnsafeCell::get
alloc::vec::Vec::as_slice alloc::vec::Vec::as_mut_slice alloc::string::String::as_str alloc::string::String::as_mut_str
core::hint::must_use core::hint::black_box core::convert::identity
alloc::vec::Vec::into_boxed_slice alloc::boxed::Box::into_inner alloc::boxed::Box::pin alloc::boxed::Box::leak
alloc::slice::[T]::into_vec core::array::[T;N]::as_slice
std::io::cursor::Cursor::get_ref core::io::cursor::Cursor::get_ref core::io::cursor::Cursor::into_inner
alloc::boxed::Box::new alloc::rcs::arc::Arc::new alloc::rcs::rc::Rc::new alloc::sync::Arc::new alloc::rc::Rc::new
core::cell::RefCell::new core::cell::Cell::new std::sync::poison::mutex::Mutex::new std::sync::poison::rwlock::RwLock::new
core::cell::RefCell::into_inner core::cell::UnsafeCell::new
core::mem::manually_drop::ManuallyDrop::new core::mem::maybe_uninit::MaybeUninit::new
core::ptr::non_null::NonNull::as_ref core::ptr::non_null::NonNull::as_mut core::ptr::non_null::NonNull::as_ptr
core::iter::traits::iterator::Iterator::copied core::iter::traits::iterator::Iterator::cloned
core::iter::traits::iterator::Iterator::by_ref core::iter::traits::iterator::Iterator::fuse core::iter::traits::iterator::Iterator::peekable
core::panic::unwind_safe::AssertUnwindSafe
""".split():
    M[n] = ident

def deref_(eng, st, f, path, targs, args, dest, target, sp, sk):
    """Smart pointers are their target: a guard that is itself a pointer is followed."""
    a = args[0]
    if a[0] == "ref":
        v = eng.read(st, a[1], a[2])
        if v[0] == "ref":
            a = v
    return eng.done(st, f, dest, target, a)


M["core::ops::deref::Deref::deref"] = deref_
M["core::ops::deref::DerefMut::deref_mut"] = deref_

for n in """
core::clone::Clone::clone alloc::borrow::ToOwned::to_owned core::borrow::ToOwned::to_owned alloc::slice::[T]::to_vec
alloc::string::String::into_bytes alloc::str::str::to_owned alloc::string::String::into_boxed_str
core::option::Option::copied core::option::Option::cloned core::cell::Cell::get
alloc::borrow::Cow::into_owned core::array::[T;N]::to_vec core::slice::[T]::to_vec
""".split():
    M[n] = byval


@model("alloc::string::String::as_bytes", "core::str::str::as_bytes", "alloc::string::String::into_bytes")
def as_bytes(eng, st, f, path, targs, args, dest, target, sp, sk):
    v = eng.deref(st, args[0])
    eng.utf8.add(v)
    return eng.done(st, f, dest, target, args[0])


@model("alloc::string::ToString::to_string")
def to_string(eng, st, f, path, targs, args, dest, target, sp, sk):
    t = targs[0] if targs else None
    v = eng.deref(st, args[0])
    if t and (t == ("p", "str") or (t[0] == "adt" and t[1].endswith("string::String")) or (t[0] == "ref")):
        return eng.done(st, f, dest, target, v)
    return eng.done(st, f, dest, target, ("call", "to_string", (eng.snap(st, v),), None))


@model("alloc::string::String::from_utf8", "core::str::converts::from_utf8", "alloc::string::String::from_utf8_lossy")
def from_utf8(eng, st, f, path, targs, args, dest, target, sp, sk):
    v = eng.deref(st, args[0])
    if "lossy" in path:
        if v in eng.utf8:
            return eng.done(st, f, dest, target, v)
        return eng.done(st, f, dest, target, ("call", "utf8_lossy", (eng.snap(st, v),), None))
    if v in eng.utf8 or v[0] == "str":
        return eng.done(st, f, dest, target, ok(v))
    t = ("call", "is_utf8", (eng.snap(st, v),), None)
    return fork_bool(eng, st, f, dest, target, t, lambda s: ok(v), lambda s: err(("call", "utf8_error", (eng.snap(s, v),), None)), sp)


def fork_bool(eng, st, f, dest, target, term, tv, fv, sp):
    out = []
    kn = eng.known(st, term)
    for val, fn in ((1, tv), (0, fv)):
        if kn is not None and kn != val:
            continue
        s = st.copy()
        if kn is None:
            if not eng.assume(s, term, val):
                continue
            if not eng.rule.on_branch(eng, s, term, val, (f, sp)):
                continue
        r = fn(s)
        if r is None:
            continue
        if isinstance(r, list):
            out.extend(r)
        else:
            out.extend(eng.done(s, f, dest, target, r))
    return out


# ---------------------------------------------------------------- enum forks
def split(eng, st, v, adt, f, sp):
    """[(variant index, payload tuple, state)]"""
    v = eng.deref(st, v)
    if v[0] == "agg" and v[1][0] == "adt" and v[2] is not None:
        return [(v[2], v[3], st)]
    if v[0] == "never":
        return []
    vs = eng.P.variants(adt)
    base = v
    while base[0] == "upd":
        base = base[1]
    d = ("discr", base)
    out = []
    kn = eng.known(st, d)
    for i, (nm, dv, fs) in enumerate(vs):
        if kn is not None and kn != dv:
            continue
        s = st.copy()
        if kn is None:
            if not eng.assume(s, d, dv):
                continue
            if not eng.rule.on_branch(eng, s, d, dv, (f, sp)):
                continue
        out.append((i, tuple(eng.field(v, (i, nm), j, fl[0]) for j, fl in enumerate(fs)), s))
    return out


OPTP = "core::option::Option"
RESP = "core::result::Result"


def panic(eng, st, f, what, sp, args=()):
    n = st.copy()
    n.event("panic", what, sp)
    eng.rule.on_panic(eng, n, ("call", what, tuple(args)), (f, sp))


@model("core::option::Option::unwrap", "core::option::Option::expect", "core::option::Option::unwrap_unchecked")
def opt_unwrap(eng, st, f, path, targs, args, dest, target, sp, sk):
    out = []
    for i, p, s in split(eng, st, args[0], OPTP, f, sp):
        if i == 1:
            out += eng.done(s, f, dest, target, p[0])
        elif not path.endswith("unchecked"):
            panic(eng, s, f, path, sp, args)
    return out


@model("core::result::Result::unwrap", "core::result::Result::expect")
def res_unwrap(eng, st, f, path, targs, args, dest, target, sp, sk):
    out = []
    for i, p, s in split(eng, st, args[0], RESP, f, sp):
        if i == 0:
            out += eng.done(s, f, dest, target, p[0])
        else:
            panic(eng, s, f, path, sp, args)
    return out


@model("core::result::Result::unwrap_err", "core::result::Result::expect_err")
def res_unwrap_err(eng, st, f, path, targs, args, dest, target, sp, sk):
    out = []
    for i, p, s in split(eng, st, args[0], RESP, f, sp):
        if i == 1:
            out += eng.done(s, f, dest, target, p[0])
        else:
            panic(eng, s, f, path, sp, args)
    return out


def combin(adt, spec):
    """spec: variant -> function(eng, s, payload, args) -> value | ('invoke', fn, fargs, wrap)"""
    def m(eng, st, f, path, targs, args, dest, target, sp, sk):
        out = []
        for i, p, s in split(eng, st, args[0], adt, f, sp):
            r = spec[i](eng, s, p, args)
            if isinstance(r, tuple) and r and r[0] == "invoke":
                out += eng.invoke(s, f, r[1], r[2], dest, target, sp, (sk, i), r[3])
            else:
                out += eng.done(s, f, dest, target, r)
        return out
    return m


W_SOME = lambda e, s, v: some(v)
W_OK = lambda e, s, v: ok(v)
W_CAUGHT = lambda e, s, v: ok(v)
W_ERR = lambda e, s, v: err(v)
inv = lambda fn, a, w=None: ("invoke", fn, a, w)
M.update({
    "core::option::Option::map": combin(OPTP, {0: lambda e, s, p, a: NONE, 1: lambda e, s, p, a: inv(a[1], [p[0]], W_SOME)}),
    "core::option::Option::and_then": combin(OPTP, {0: lambda e, s, p, a: NONE, 1: lambda e, s, p, a: inv(a[1], [p[0]])}),
    "core::option::Option::map_or": combin(OPTP, {0: lambda e, s, p, a: a[1], 1: lambda e, s, p, a: inv(a[2], [p[0]])}),
    "core::option::Option::map_or_else": combin(OPTP, {0: lambda e, s, p, a: inv(a[1], []), 1: lambda e, s, p, a: inv(a[2], [p[0]])}),
    "core::option::Option::ok_or": combin(OPTP, {0: lambda e, s, p, a: err(a[1]), 1: lambda e, s, p, a: ok(p[0])}),
    "core::option::Option::ok_or_else": combin(OPTP, {0: lambda e, s, p, a: inv(a[1], [], W_ERR), 1: lambda e, s, p, a: ok(p[0])}),
    "core::option::Option::unwrap_or": combin(OPTP, {0: lambda e, s, p, a: a[1], 1: lambda e, s, p, a: p[0]}),
    "core::option::Option::unwrap_or_else": combin(OPTP, {0: lambda e, s, p, a: inv(a[1], []), 1: lambda e, s, p, a: p[0]}),
    "core::option::Option::is_some": combin(OPTP, {0: lambda e, s, p, a: FALSE, 1: lambda e, s, p, a: TRUE}),
    "core::option::Option::is_none": combin(OPTP, {0: lambda e, s, p, a: TRUE, 1: lambda e, s, p, a: FALSE}),
    "core::option::Option::or": combin(OPTP, {0: lambda e, s, p, a: a[1], 1: lambda e, s, p, a: some(p[0])}),
    "core::option::Option::or_else": combin(OPTP, {0: lambda e, s, p, a: inv(a[1], []), 1: lambda e, s, p, a: some(p[0])}),
    "core::option::Option::is_some_and": combin(OPTP, {0: lambda e, s, p, a: FALSE, 1: lambda e, s, p, a: inv(a[1], [p[0]])}),
    "core::option::Option::and": combin(OPTP, {0: lambda e, s, p, a: NONE, 1: lambda e, s, p, a: a[1]}),
    "core::result::Result::map": combin(RESP, {0: lambda e, s, p, a: inv(a[1], [p[0]], W_OK), 1: lambda e, s, p, a: err(p[0])}),
    "core::result::Result::map_err": combin(RESP, {0: lambda e, s, p, a: ok(p[0]), 1: lambda e, s, p, a: inv(a[1], [p[0]], W_ERR)}),
    "core::result::Result::and_then": combin(RESP, {0: lambda e, s, p, a: inv(a[1], [p[0]]), 1: lambda e, s, p, a: err(p[0])}),
    "core::result::Result::or_else": combin(RESP, {0: lambda e, s, p, a: ok(p[0]), 1: lambda e, s, p, a: inv(a[1], [p[0]])}),
    "core::result::Result::ok": combin(RESP, {0: lambda e, s, p, a: some(p[0]), 1: lambda e, s, p, a: NONE}),
    "core::result::Result::err": combin(RESP, {0: lambda e, s, p, a: NONE, 1: lambda e, s, p, a: some(p[0])}),
    "core::result::Result::is_ok": combin(RESP, {0: lambda e, s, p, a: TRUE, 1: lambda e, s, p, a: FALSE}),
    "core::result::Result::is_err": combin(RESP, {0: lambda e, s, p, a: FALSE, 1: lambda e, s, p, a: TRUE}),
    "core::result::Result::unwrap_or": combin(RESP, {0: lambda e, s, p, a: p[0], 1: lambda e, s, p, a: a[1]}),
    "core::result::Result::unwrap_or_else": combin(RESP, {0: lambda e, s, p, a: p[0], 1: lambda e, s, p, a: inv(a[1], [p[0]])}),
    "core::result::Result::map_or": combin(RESP, {0: lambda e, s, p, a: inv(a[2], [p[0]]), 1: lambda e, s, p, a: a[1]}),
    "core::result::Result::map_or_else": combin(RESP, {0: lambda e, s, p, a: inv(a[2], [p[0]]), 1: lambda e, s, p, a: inv(a[1], [p[0]])}),
})


@model("core::option::Option::as_ref", "core::option::Option::as_mut", "core::option::Option::as_deref",
       "core::option::Option::as_deref_mut", "core::result::Result::as_ref", "core::result::Result::as_mut")
def as_ref(eng, st, f, path, targs, args, dest, target, sp, sk):
    a = args[0]
    adt = RESP if "Result" in path else OPTP
    v = eng.deref(st, a)
    out = []
    for i, p, s in split(eng, st, a, adt, f, sp):
        if a[0] == "ref" and p and ("mut" in path):
            cell, proj = a[1], a[2]
            inner = eng.read(s, cell, proj)
            n = 0
            while inner[0] == "ref" and n < 8:
                cell, proj = inner[1], inner[2]
                inner = eng.read(s, cell, proj)
                n += 1
            vn = eng.P.variants(adt)[i][0]
            out += eng.done(s, f, dest, target, ("agg", ("adt", adt), i, (("ref", cell, proj + (("as", i, vn), (".", 0, "0"))),)))
        else:
            out += eng.done(s, f, dest, target, ("agg", ("adt", adt), i, tuple(p)))
    return out


def default_of(eng, t):
    if t is None:
        return ("top",)
    if t[0] == "p" and t[1] in BITS:
        return ("k", 0, t[1])
    if t[0] == "adt":
        n = t[1]
        if n == OPTP:
            return NONE
        if n.endswith(("::Vec", "::HashMap", "::HashSet", "::IndexMap", "::BTreeMap", "::BTreeSet", "::VecDeque")):
            return ("agg", ("array",), None, ())
        if n.endswith("::String"):
            return ("str", "")
        if n.endswith("PhantomData"):
            return ("agg", ("adt", n), 0, ())
    if t[0] == "tuple":
        return ("agg", ("tuple",), None, tuple(default_of(eng, x) for x in t[1]))
    if t[0] == "array" and t[2] and t[2][0] == "cv" and t[2][1] <= 64:
        return ("agg", ("array",), None, (default_of(eng, t[1]),) * t[2][1])
    return ("call", "default", (("ty", t),), None)


@model("core::default::Default::default")
def default(eng, st, f, path, targs, args, dest, target, sp, sk):
    return eng.done(st, f, dest, target, default_of(eng, targs[0] if targs else None))


@model("core::option::Option::unwrap_or_default", "core::result::Result::unwrap_or_default")
def unwrap_or_default(eng, st, f, path, targs, args, dest, target, sp, sk):
    o = "Option" in path
    out = []
    for i, p, s in split(eng, st, args[0], OPTP if o else RESP, f, sp):
        good = (i == 1) if o else (i == 0)
        out += eng.done(s, f, dest, target, p[0] if good else default_of(eng, targs[0] if targs else None))
    return out


@model("core::option::Option::take")
def opt_take(eng, st, f, path, targs, args, dest, target, sp, sk):
    v = eng.deref(st, args[0])
    if args[0][0] == "ref":
        eng.write(st, args[0][1], args[0][2], NONE)
    return eng.done(st, f, dest, target, v)


@model("core::option::Option::replace", "core::option::Option::insert", "core::option::Option::get_or_insert")
def opt_replace(eng, st, f, path, targs, args, dest, target, sp, sk):
    v = eng.deref(st, args[0])
    if args[0][0] == "ref":
        eng.write(st, args[0][1], args[0][2], some(args[1]))
    return eng.done(st, f, dest, target, v if path.endswith("replace") else args[1])


@model("core::mem::take")
def mem_take(eng, st, f, path, targs, args, dest, target, sp, sk):
    v = eng.deref(st, args[0])
    if args[0][0] == "ref":
        eng.write(st, args[0][1], args[0][2], default_of(eng, targs[0] if targs else None))
    return eng.done(st, f, dest, target, v)


@model("core::mem::replace")
def mem_replace(eng, st, f, path, targs, args, dest, target, sp, sk):
    v = eng.deref(st, args[0])
    if args[0][0] == "ref":
        eng.write(st, args[0][1], args[0][2], args[1])
    return eng.done(st, f, dest, target, v)


@model("core::mem::drop", "core::mem::forget")
def mem_drop(eng, st, f, path, targs, args, dest, target, sp, sk):
    return eng.done(st, f, dest, target, UNIT)


@model("core::cell::Cell::set")
def cell_set(eng, st, f, path, targs, args, dest, target, sp, sk):
    if args[0][0] == "ref":
        eng.write(st, args[0][1], args[0][2], args[1])
    else:
        st.store[("obj", args[0])] = args[1]
    return eng.done(st, f, dest, target, UNIT)


@model("std::sync::poison::mutex::Mutex::lock", "std::sync::poison::rwlock::RwLock::read", "std::sync::poison::rwlock::RwLock::write",
       "core::cell::RefCell::try_borrow", "core::cell::RefCell::try_borrow_mut")
def lock(eng, st, f, path, targs, args, dest, target, sp, sk):
    return eng.done(st, f, dest, target, ok(args[0]))


# ---------------------------------------------------------------- ?
@model("core::ops::try_trait::Try::branch")
def try_branch(eng, st, f, path, targs, args, dest, target, sp, sk):
    t = targs[0]
    adt = t[1] if t and t[0] == "adt" else RESP
    if adt not in (OPTP, RESP):
        if adt == "core::task::poll::Poll":
            return None
        adt = RESP
    out = []
    for i, p, s in split(eng, st, args[0], adt, f, sp):
        if adt == OPTP:
            v = ("agg", CF, 0, (p[0],)) if i == 1 else ("agg", CF, 1, (NONE,))
        else:
            v = ("agg", CF, 0, (p[0],)) if i == 0 else ("agg", CF, 1, (err(p[0]),))
        out += eng.done(s, f, dest, target, v)
    return out


@model("core::ops::try_trait::FromResidual::from_residual")
def from_residual(eng, st, f, path, targs, args, dest, target, sp, sk):
    v = eng.deref(st, args[0])
    if v[0] == "agg" and v[1] == RES and v[2] == 1:
        e = v[3][0]
        T = targs[0]
        R = targs[1] if len(targs) > 1 else None
        if T and T[0] == "adt" and T[1] == RESP and R and R[0] == "adt" and R[1] == RESP:
            F, E = T[2][1], R[2][1]
            if F != E:
                b, a, p = eng.P.resolve("core::convert::From::from", (F, E))
                if b is not None:
                    return eng.call_path(st, f, p, a, [e], dest, target, sp, sk) if False else \
                        [eng.push(st, f, b, a, [e], dest, target, (sk, "from"), sp, W_ERR)]
        return eng.done(st, f, dest, target, err(e))
    return eng.done(st, f, dest, target, v)


# ---------------------------------------------------------------- conversions
def conv_from(eng, st, f, F, E, x, dest, target, sp, sk):
    b, a, p = eng.P.resolve("core::convert::From::from", (F, E))
    if b is not None:
        return eng.call_path(st, f, p, a, [x], dest, target, sp, (sk, "from"))
    v = x
    if E and F and E[0] == "p" and F[0] == "p":
        v = eng.cast(st, eng.deref(st, x), E, F)
    elif F and F[0] == "adt" and F[1] == OPTP and E and not (E[0] == "adt" and E[1] == OPTP):
        v = some(x)
    elif F and F[0] == "adt" and (F[1].endswith(("::Vec", "::String", "::Box", "::Arc", "::Rc"))):
        v = eng.deref(st, x)
    return eng.done(st, f, dest, target, v)


@model("core::convert::Into::into")
def into(eng, st, f, path, targs, args, dest, target, sp, sk):
    E, F = (targs + (None, None))[:2]
    if E == F:
        return eng.done(st, f, dest, target, args[0])
    return conv_from(eng, st, f, F, E, args[0], dest, target, sp, sk)


@model("core::convert::From::from")
def from_(eng, st, f, path, targs, args, dest, target, sp, sk):
    F, E = (targs + (None, None))[:2]
    return conv_from(eng, st, f, F, E, args[0], dest, target, sp, sk)


def maxof(t):
    b = BITS[t]
    return (1 << (b - 1)) - 1 if is_signed(t) else (1 << b) - 1


def try_conv(eng, st, f, F, E, x, dest, target, sp, sk):
    b, a, p = eng.P.resolve("core::convert::TryFrom::try_from", (F, E))
    if b is not None:
        return eng.call_path(st, f, p, a, [x], dest, target, sp, (sk, "tryfrom"))
    v = eng.deref(st, x)
    if F and F[0] == "p" and F[1] in BITS:
        lo = -(1 << (BITS[F[1]] - 1)) if is_signed(F[1]) else 0
        hi = maxof(F[1])
        if v[0] == "k":
            if lo <= v[1] <= hi:
                return eng.done(st, f, dest, target, ok(("k", v[1], F[1])))
            return eng.done(st, f, dest, target, err(("call", "TryFromIntError", (), None)))
        if E and E[0] == "p" and E[1] in BITS:
            elo = -(1 << (BITS[E[1]] - 1)) if is_signed(E[1]) else 0
            if lo <= elo and maxof(E[1]) <= hi:
                return eng.done(st, f, dest, target, ok(v))
        t = eng.bin(st, "Le", v, ("k", hi, F[1]))
        return fork_bool(eng, st, f, dest, target, t, lambda s: ok(v), lambda s: err(("call", "TryFromIntError", (), None)), sp)
    arr = F
    if arr and arr[0] == "ref":
        arr = arr[1]
    if arr and arr[0] == "array" and arr[2] and arr[2][0] == "cv":
        L = eng.length(st, v)
        if L[0] == "k":
            if L[1] == arr[2][1]:
                return eng.done(st, f, dest, target, ok(v))
            return eng.done(st, f, dest, target, err(("call", "TryFromSliceError", (), None)))
        t = eng.bin(st, "Eq", L, K(arr[2][1]))
        return fork_bool(eng, st, f, dest, target, t, lambda s: ok(v), lambda s: err(("call", "TryFromSliceError", (), None)), sp)
    if arr and arr[0] == "array":
        # generic length: decided by the reader's request
        L = eng.length(st, v)
        if L == ("cparam", arr[2][2] if arr[2] and arr[2][0] == "param" else None):
            return eng.done(st, f, dest, target, ok(v))
    t = ("call", "try_from", (eng.snap(st, v), ("ty", F)), None)
    return fork_bool(eng, st, f, dest, target, ("discrok", t), lambda s: ok(t), lambda s: err(("call", "try_err", (t,), None)), sp)


@model("core::convert::TryFrom::try_from")
def try_from(eng, st, f, path, targs, args, dest, target, sp, sk):
    F, E = (targs + (None, None))[:2]
    return try_conv(eng, st, f, F, E, args[0], dest, target, sp, sk)


@model("core::convert::TryInto::try_into")
def try_into(eng, st, f, path, targs, args, dest, target, sp, sk):
    E, F = (targs + (None, None))[:2]
    return try_conv(eng, st, f, F, E, args[0], dest, target, sp, sk)


# ---------------------------------------------------------------- integers
@model(r"~^core::num::[ui](8|16|32|64|128|size)::to_(be|le|ne)_bytes$")
def to_bytes(eng, st, f, path, targs, args, dest, target, sp, sk):
    m = re.search(r"([ui](?:8|16|32|64|128|size))::to_(be|le|ne)", norm(path))
    e = "le" if m.group(2) == "ne" else m.group(2)
    n = BITS[m.group(1)] // 8
    v = eng.deref(st, args[0])
    if v[0] == "k":
        b = (v[1] & ((1 << (8 * n)) - 1)).to_bytes(n, "big" if e == "be" else "little")
        return eng.done(st, f, dest, target, ("agg", ("array",), None, tuple(("k", x, "u8") for x in b)))
    return eng.done(st, f, dest, target, ("tobytes", e, n, v))


@model(r"~^core::num::[ui](8|16|32|64|128|size)::from_(be|le|ne)_bytes$")
def from_bytes(eng, st, f, path, targs, args, dest, target, sp, sk):
    m = re.search(r"([ui](?:8|16|32|64|128|size))::from_(be|le|ne)", norm(path))
    e = "le" if m.group(2) == "ne" else m.group(2)
    ty = m.group(1)
    n = BITS[ty] // 8
    v = eng.deref(st, args[0])
    if v[0] == "tobytes" and v[1] == e and v[2] == n:
        return eng.done(st, f, dest, target, v[3])
    bs = None
    if v[0] == "agg" and v[1][0] == "array":
        bs = v[3]
    elif v[0] == "bytes":
        bs = tuple(("k", x, "u8") for x in v[1])
    if bs is not None and len(bs) == n and all(x[0] == "k" for x in bs):
        x = int.from_bytes(bytes(b[1] for b in bs), "big" if e == "be" else "little")
        return eng.done(st, f, dest, target, ("k", wrapint(x, ty), ty))
    return eng.done(st, f, dest, target, ("frombytes", e, ty, eng.snap(st, v)))


@model(r"~^core::num::[ui](8|16|32|64|128|size)::checked_(add|sub|mul)$")
def checked(eng, st, f, path, targs, args, dest, target, sp, sk):
    op = {"add": "Add", "sub": "Sub", "mul": "Mul"}[path.rsplit("_", 1)[1]]
    ty = re.search(r"([ui](?:8|16|32|64|128|size))::checked", norm(path)).group(1)
    a, b = [eng.deref(st, x) for x in args]
    r = eng.bin(st, op, a, b)
    if a[0] == "k" and b[0] == "k":
        raw = {"Add": a[1] + b[1], "Sub": a[1] - b[1], "Mul": a[1] * b[1]}[op]
        return eng.done(st, f, dest, target, some(r) if raw == wrapint(raw, ty) else NONE)
    if op == "Sub" and not is_signed(ty):
        t = ("bin", "Lt", a, b)
        return fork_bool(eng, st, f, dest, target, t, lambda s: NONE, lambda s: some(r), sp)
    t = ("ovf", op, a, b)
    return fork_bool(eng, st, f, dest, target, t, lambda s: NONE, lambda s: some(r), sp)


@model(r"~^core::num::[ui](8|16|32|64|128|size)::(checked_div|checked_rem)$")
def checked_div(eng, st, f, path, targs, args, dest, target, sp, sk):
    a, b = [eng.deref(st, x) for x in args]
    op = "Div" if path.endswith("div") else "Rem"
    t = eng.bin(st, "Eq", b, ("k", 0, "int"))
    return fork_bool(eng, st, f, dest, target, t, lambda s: NONE, lambda s: some(eng.bin(s, op, a, b)), sp)


@model(r"~^core::num::[ui](8|16|32|64|128|size)::overflowing_(add|sub|mul)$")
def overflowing(eng, st, f, path, targs, args, dest, target, sp, sk):
    op = {"add": "Add", "sub": "Sub", "mul": "Mul"}[path.rsplit("_", 1)[1]]
    a, b = [eng.deref(st, x) for x in args]
    return eng.done(st, f, dest, target, tup(("call", "wrapping_" + op, (a, b), None), ("ovf", op, a, b)))


@model(r"~^core::num::[ui](8|16|32|64|128|size)::(wrapping|saturating)_(add|sub|mul)$")
def wrapping(eng, st, f, path, targs, args, dest, target, sp, sk):
    m = re.search(r"(wrapping|saturating)_(add|sub|mul)$", path)
    a, b = [eng.deref(st, x) for x in args]
    return eng.done(st, f, dest, target, ("call", m.group(0), (a, b), None))


@model(r"~^core::num::[ui](8|16|32|64|128|size)::", r"~^core::num::f(32|64)::")
def num_other(eng, st, f, path, targs, args, dest, target, sp, sk):
    if target is None:
        return None
    return eng.done(st, f, dest, target, ("call", norm(path), tuple(eng.snap(st, a) for a in args), None))


def eq_terms(eng, st, a, b, n=0):
    a, b = eng.deref(st, a), eng.deref(st, b)
    if a[0] == "k" and b[0] == "k":
        return TRUE if a[1] == b[1] else FALSE
    if a[0] in ("str", "bytes") and a[0] == b[0]:
        return TRUE if a[1] == b[1] else FALSE
    for x, y in ((a, b), (b, a)):
        if x[0] == "agg" and x[1][0] == "adt" and x[2] is not None:
            vs = eng.P.variants(x[1][1])
            if y[0] == "agg" and y[1] == x[1]:
                if y[2] != x[2]:
                    return FALSE
                r = TRUE
                for p, q in zip(x[3], y[3]):
                    e = eq_terms(eng, st, p, q, n + 1)
                    if e == FALSE:
                        return FALSE
                    if e != TRUE:
                        r = e if r == TRUE else ("bin", "BitAnd", r, e)
                return r
            if vs and not x[3] and len(vs) > 1:
                return eng.bin(st, "Eq", ("discr", y), ("k", vs[x[2]][1], "discr"))
            if vs and len(vs) == 1 and x[3]:
                r = TRUE
                for j, (p, fl) in enumerate(zip(x[3], vs[0][2])):
                    e = eq_terms(eng, st, p, eng.field(y, None, j, fl[0]), n + 1)
                    if e == FALSE:
                        return FALSE
                    if e != TRUE:
                        r = e if r == TRUE else ("bin", "BitAnd", r, e)
                return r
            if x[1] == OPT and x[2] == 1:
                e = eq_terms(eng, st, x[3][0], ("fld", y, "Some", "0"), n + 1)
                d = eng.bin(st, "Eq", ("discr", y), ("k", 1, "discr"))
                return d if e == TRUE else ("bin", "BitAnd", d, e)
    sa, sb = eng.snap(st, a), eng.snap(st, b)
    if sa == sb and eng.pure(sa):
        return TRUE
    if repr(sa) > repr(sb) and sb[0] != "k":
        sa, sb = sb, sa
    if sa[0] in ("k", "str", "bytes"):
        sa, sb = sb, sa
    return eng.bin(st, "Eq", sa, sb)


def negate(eng, t):
    if t == TRUE:
        return FALSE
    if t == FALSE:
        return TRUE
    if t[0] == "un" and t[1] == "Not":
        return t[2]
    return ("un", "Not", t)


@model("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne")
def partial_eq(eng, st, f, path, targs, args, dest, target, sp, sk):
    r = eq_terms(eng, st, args[0], args[1])
    return eng.done(st, f, dest, target, r if path.endswith("eq") else negate(eng, r))


LOGTYPES = ("tracing_core::metadata::Level", "tracing_core::metadata::LevelFilter", "log::Level", "log::LevelFilter")


@model("core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::le", "core::cmp::PartialOrd::gt", "core::cmp::PartialOrd::ge")
def partial_ord(eng, st, f, path, targs, args, dest, target, sp, sk):
    for t in targs[:2]:
        while t and t[0] == "ref":
            t = t[1]
        if t and t[0] == "adt" and t[1] in LOGTYPES:
            return eng.done(st, f, dest, target, FALSE)
    a, b = [eng.deref(st, x) for x in args]
    op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[path[-2:]]
    return eng.done(st, f, dest, target, eng.bin(st, op, eng.snap(st, a), eng.snap(st, b)))


@model("core::cmp::Ord::cmp", "core::cmp::PartialOrd::partial_cmp")
def ord_cmp(eng, st, f, path, targs, args, dest, target, sp, sk):
    a, b = [eng.snap(st, x) for x in args]
    out = []
    part = path.endswith("partial_cmp")
    arms = []
    if a[0] == "k" and b[0] == "k":
        i = 0 if a[1] < b[1] else (1 if a[1] == b[1] else 2)
        arms = [(i, [])]
    else:
        lt, gt, eq = eng.bin(st, "Lt", a, b), eng.bin(st, "Lt", b, a), eng.bin(st, "Eq", a, b)
        arms = [(0, [(lt, 1)]), (1, [(eq, 1), (lt, 0), (gt, 0)]), (2, [(gt, 1)])]
    for i, asm in arms:
        s = st.copy()
        good = True
        for t, val in asm:
            kn = eng.known(s, t)
            if kn is not None:
                if kn != val:
                    good = False
                    break
                continue
            if not eng.assume(s, t, val):
                good = False
                break
        if not good:
            continue
        if asm and not eng.rule.on_branch(eng, s, asm[0][0], asm[0][1], (f, sp)):
            continue
        v = ("agg", ("adt", "core::cmp::Ordering"), i, ())
        out += eng.done(s, f, dest, target, some(v) if part else v)
    return out


@model("core::cmp::Ord::min", "core::cmp::min", "core::cmp::Ord::max", "core::cmp::max")
def minmax(eng, st, f, path, targs, args, dest, target, sp, sk):
    a, b = [eng.snap(st, x) for x in args]
    mn = path.endswith("min")
    if a[0] == "k" and b[0] == "k":
        return eng.done(st, f, dest, target, a if (a[1] <= b[1]) == mn else b)
    t = eng.bin(st, "Le", a, b)
    return fork_bool(eng, st, f, dest, target, t, lambda s: a if mn else b, lambda s: b if mn else a, sp)


@model(r"~^core::ops::arith::(Add|Sub|Mul|Div|Rem)::", r"~^core::ops::bit::(BitAnd|BitOr|BitXor|Shl|Shr)::")
def arith(eng, st, f, path, targs, args, dest, target, sp, sk):
    op = re.search(r"::(Add|Sub|Mul|Div|Rem|BitAnd|BitOr|BitXor|Shl|Shr)::", path).group(1)
    a, b = [eng.snap(st, x) for x in args]
    return eng.done(st, f, dest, target, eng.bin(st, op, a, b))


@model(r"~^core::ops::arith::(Add|Sub|Mul|Div|Rem)Assign::", r"~^core::ops::bit::(BitAnd|BitOr|BitXor|Shl|Shr)Assign::")
def arith_assign(eng, st, f, path, targs, args, dest, target, sp, sk):
    op = re.search(r"::(Add|Sub|Mul|Div|Rem|BitAnd|BitOr|BitXor|Shl|Shr)Assign", path).group(1)
    a, b = [eng.snap(st, x) for x in args]
    if args[0][0] == "ref":
        eng.write(st, args[0][1], args[0][2], eng.bin(st, op, a, b))
    return eng.done(st, f, dest, target, UNIT)


# ---------------------------------------------------------------- collections
EMPTY = ("agg", ("array",), None, ())


@model(r"~(^|::)(Vec|HashMap|HashSet|IndexMap|IndexSet|BTreeMap|BTreeSet|VecDeque|String)::(new|with_capacity|with_hasher|with_capacity_and_hasher)$")
def coll_new(eng, st, f, path, targs, args, dest, target, sp, sk):
    if not path.startswith(("alloc::", "std::", "indexmap::", "core::", "hashbrown::")):
        return None
    return eng.done(st, f, dest, target, EMPTY if "String" not in norm(path) else ("str", ""))


def coll_add(eng, st, ref, v):
    if ref[0] != "ref":
        return
    cur = eng.deref(st, ref)
    # find the innermost place
    cell, proj = ref[1], ref[2]
    inner = eng.read(st, cell, proj)
    n = 0
    while inner[0] == "ref" and n < 8:
        cell, proj = inner[1], inner[2]
        inner = eng.read(st, cell, proj)
        n += 1
    if cur[0] == "agg" and cur[1][0] == "array" and len(cur[3]) < 24:
        new = ("agg", ("array",), None, cur[3] + (v,))
    elif cur[0] == "agg" and cur[1][0] == "array":
        new = ("seq", frozenset(cur[3]) | {v}, None)
    elif cur[0] == "seq":
        new = ("seq", cur[1] | {v}, None)
    elif cur[0] == "str" and cur[1] == "":
        new = ("seq", frozenset([v]), None)
    else:
        base = cur[1] if cur[0] == "appended" else cur
        old = cur[2] if cur[0] == "appended" else frozenset()
        new = ("appended", base, old | {v})
    eng.write(st, cell, proj, new)


@model(r"~(^|::)(Vec|VecDeque)::(push|push_back)$", r"~(^|::)(HashSet|BTreeSet|IndexSet)::insert$")
def vec_push(eng, st, f, path, targs, args, dest, target, sp, sk):
    coll_add(eng, st, args[0], eng.snap(st, args[1]) if args[1][0] == "ref" and args[1][1][0] != "g" else args[1])
    return eng.done(st, f, dest, target, UNIT if "Vec" in path else ("call", "inserted", (eng.snap(st, args[1]),), (f.ctx, sk)))


@model(r"~(^|::)(HashMap|BTreeMap|IndexMap)::insert$")
def map_insert(eng, st, f, path, targs, args, dest, target, sp, sk):
    coll_add(eng, st, args[0], tup(eng.snap(st, args[1]), eng.snap(st, args[2])))
    v = ("call", "map_insert_old", (eng.snap(st, args[1]),), (f.ctx, sk))
    return eng.done(st, f, dest, target, v)


@model(r"~(^|::)Vec::(extend_from_slice|append)$", "core::iter::traits::collect::Extend::extend")
def vec_extend(eng, st, f, path, targs, args, dest, target, sp, sk):
    if path.endswith("extend"):
        it = as_iter(eng, st, args[1])
        return [eng.push(st, f, EXTEND, (), [args[0], it], dest, target, (sk, "extend"), sp)]
    src = eng.deref(st, args[1])
    if src[0] == "agg" and src[1][0] == "array":
        for x in src[3]:
            coll_add(eng, st, args[0], x)
    elif src[0] == "seq":
        for x in src[1]:
            coll_add(eng, st, args[0], x)
    else:
        cur = eng.deref(st, args[0])
        if cur == EMPTY:
            eng.write(st, *place_of(eng, st, args[0]), src)
        else:
            coll_add(eng, st, args[0], ("spread", eng.snap(st, src)))
    return eng.done(st, f, dest, target, UNIT)


def place_of(eng, st, ref):
    cell, proj = ref[1], ref[2]
    inner = eng.read(st, cell, proj)
    n = 0
    while inner[0] == "ref" and n < 8:
        cell, proj = inner[1], inner[2]
        inner = eng.read(st, cell, proj)
        n += 1
    return cell, proj


@model("alloc::string::String::push_str", "alloc::string::String::push")
def push_str(eng, st, f, path, targs, args, dest, target, sp, sk):
    cur, x = eng.snap(st, args[0]), eng.snap(st, args[1])
    if args[0][0] == "ref":
        cell, proj = place_of(eng, st, args[0])
        eng.write(st, cell, proj, x if cur == ("str", "") else ("call", "str_concat", (cur, x), None))
    else:
        st.store[("obj", args[0])] = ("call", "str_concat", (cur, x), None)
    return eng.done(st, f, dest, target, UNIT)


@model(r"~(^|::)(Vec|HashMap|HashSet|IndexMap|BTreeMap|VecDeque|String)::clear$")
def coll_clear(eng, st, f, path, targs, args, dest, target, sp, sk):
    if args[0][0] == "ref":
        eng.write(st, *place_of(eng, st, args[0]), EMPTY)
    else:
        st.store[("obj", args[0])] = EMPTY
    return eng.done(st, f, dest, target, UNIT)


@model(r"~(^|::)(Vec|VecDeque|HashMap|HashSet|IndexMap|BTreeMap|BTreeSet|String)::len$", "core::slice::[T]::len", "core::str::str::len",
       "core::iter::traits::exact_size::ExactSizeIterator::len")
def coll_len(eng, st, f, path, targs, args, dest, target, sp, sk):
    v = eng.deref(st, args[0])
    if v[0] == "iter":
        v = v[1]
    return eng.done(st, f, dest, target, eng.length(st, v))


@model(r"~(^|::)(Vec|VecDeque|HashMap|HashSet|IndexMap|BTreeMap|String)::is_empty$", "core::slice::[T]::is_empty", "core::str::str::is_empty")
def coll_empty(eng, st, f, path, targs, args, dest, target, sp, sk):
    return eng.done(st, f, dest, target, eng.bin(st, "Eq", eng.length(st, args[0]), K(0)))


@model("alloc::vec::from_elem")
def from_elem(eng, st, f, path, targs, args, dest, target, sp, sk):
    n = eng.deref(st, args[1])
    if n[0] == "k" and n[1] <= 64:
        return eng.done(st, f, dest, target, ("agg", ("array",), None, (args[0],) * n[1]))
    return eng.done(st, f, dest, target, ("repeat", args[0], n))


@model("core::slice::[T]::copy_from_slice", "core::slice::[T]::clone_from_slice")
def copy_from_slice(eng, st, f, path, targs, args, dest, target, sp, sk):
    src = eng.deref(st, args[1])
    if args[0][0] == "ref":
        eng.write(st, args[0][1], args[0][2], src)
    return eng.done(st, f, dest, target, UNIT)


RANGES = {"RangeFull": lambda f: (K(0), ("k", 0, "end")), }


@model("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def index(eng, st, f, path, targs, args, dest, target, sp, sk):
    i = eng.deref(st, args[1])
    base = args[0]
    v = eng.deref(st, base)
    it = targs[1] if len(targs) > 1 else None
    eng.rule.on_panic(eng, st, ("index", path, (eng.snap(st, v), eng.snap(st, i))), (f, sp)) if eng.rule.follow_panics else None
    if it and it[0] == "adt" and "::range::" in it[1]:
        nm = it[1].split("::")[-1]
        L = eng.length(st, v)
        if nm == "RangeFull":
            return eng.done(st, f, dest, target, base)
        a, b = K(0), None
        if i[0] == "agg":
            if nm == "Range":
                a, b = i[3][0], i[3][1]
            elif nm == "RangeFrom":
                a = i[3][0]
            elif nm == "RangeTo":
                b = i[3][0]
            elif nm == "RangeToInclusive":
                b = eng.bin(st, "Add", i[3][0], K(1))
        elif i[0] == "range":
            a, b = i[1], eng.bin(st, "Add", i[2], K(1))
        a = eng.snap(st, a)
        b = L if b is None else eng.snap(st, b)
        if a == K(0) and b == L:
            return eng.done(st, f, dest, target, base)
        if v[0] == "agg" and v[1][0] == "array" and a[0] == "k" and b[0] == "k" and 0 <= a[1] <= b[1] <= len(v[3]) and "Mut" not in path:
            return eng.done(st, f, dest, target, ("agg", ("array",), None, v[3][a[1]:b[1]]))
        if base[0] == "ref" and "Mut" in path:
            c, p = place_of(eng, st, base)
            return eng.done(st, f, dest, target, ("ref", c, p + (("[]", ("rng", a, b)),)))
        return eng.done(st, f, dest, target, ("slice", eng.snap(st, v), a, b))
    if base[0] == "ref":
        c, p = place_of(eng, st, base)
        return eng.done(st, f, dest, target, ("ref", c, p + (("[]", eng.snap(st, i)),)))
    return eng.done(st, f, dest, target, eng.index(st, v, i))


@model("core::slice::[T]::get", r"~(^|::)(HashMap|IndexMap|BTreeMap)::get$", "core::slice::[T]::first", "core::slice::[T]::last",
       r"~(^|::)(HashMap|IndexMap|BTreeMap)::get_mut$", "core::slice::[T]::get_mut")
def coll_get(eng, st, f, path, targs, args, dest, target, sp, sk):
    v = eng.snap(st, args[0])
    n = norm(path).rsplit("::", 1)[1].replace("_mut", "")
    if "slice" in path and v[0] == "agg" and v[1][0] == "array":
        if n == "first":
            return eng.done(st, f, dest, target, some(v[3][0]) if v[3] else NONE)
        if n == "last":
            return eng.done(st, f, dest, target, some(v[3][-1]) if v[3] else NONE)
        i = eng.snap(st, args[1])
        if i[0] == "k":
            return eng.done(st, f, dest, target, some(v[3][i[1]]) if 0 <= i[1] < len(v[3]) else NONE)
    if v[0] == "agg" and v[1][0] == "array" and not v[3]:
        return eng.done(st, f, dest, target, NONE)
    key = tuple(eng.snap(st, a) for a in args[1:])
    t = ("call", "get" if n == "get" else n, (v,) + key, None)
    return eng.done(st, f, dest, target, t)


@model(r"~(^|::)(HashMap|HashSet|IndexMap|IndexSet|BTreeMap|BTreeSet)::(contains|contains_key)$", "core::slice::[T]::contains",
       r"~(^|::)Vec::contains$")
def coll_contains(eng, st, f, path, targs, args, dest, target, sp, sk):
    v = eng.snap(st, args[0])
    k = eng.snap(st, args[1])
    if v[0] == "agg" and v[1][0] == "array" and not v[3]:
        return eng.done(st, f, dest, target, FALSE)
    if v[0] == "agg" and v[1][0] == "array" and k[0] in ("k", "str") and all(x[0] == k[0] for x in v[3]):
        return eng.done(st, f, dest, target, TRUE if k in v[3] else FALSE)
    return eng.done(st, f, dest, target, ("call", "contains", (v, k), None))


# ---------------------------------------------------------------- iterators
ITER = "core::iter::traits::iterator::Iterator"


def ws_iter(eng, d):
    """Workspace implementation of Iterator::next for an aggregate, if any."""
    if d[0] == "agg" and d[1][0] == "adt":
        for im in eng.P.impls.get(ITER, ()):
            a = im["args"][0]
            if a and a[0] == "adt" and a[1] == d[1][1] and "next" in im["items"]:
                b = eng.P.bodies.get(im["items"]["next"][1])
                if b is not None:
                    return b
    return None


def as_iter(eng, st, v):
    """Iterator value for something iterable."""
    d = eng.deref(st, v)
    if ws_iter(eng, d) is not None:
        return d
    if d[0] == "agg" and d[1][0] in ("it",):
        return d
    if d[0] in ("iter", "range"):
        return d
    if d[0] == "agg" and d[1][0] == "adt" and d[1][1].startswith("core::ops::range::"):
        return d
    if d[0] == "agg" and d[1][0] == "array":
        return ("agg", ("it", "known"), None, (d, K(0)))
    if d[0] == "agg" and d[1] == OPT:
        return ("agg", ("it", "known"), None, (("agg", ("array",), None, d[3]), K(0)))
    return ("iter", eng.snap(st, d))


@model("core::iter::traits::collect::IntoIterator::into_iter", "core::slice::[T]::iter", "core::slice::[T]::iter_mut",
       r"~(^|::)(Vec|HashMap|HashSet|IndexMap|IndexSet|BTreeMap|BTreeSet|VecDeque)::(iter|iter_mut|into_iter)$",
       "core::array::[T;N]::iter", "core::option::Option::iter", "core::str::str::bytes", "core::str::str::chars",
       "core::slice::iter::Iter::as_slice")
def into_iter(eng, st, f, path, targs, args, dest, target, sp, sk):
    a = args[0]
    if a[0] == "ref":
        v = eng.deref(st, a)
        if v[0] == "agg" and v[1][0] == "it" or v[0] in ("iter", "range") or ws_iter(eng, v) is not None:
            # &mut iterator stays a pointer so that its progress is shared
            return eng.done(st, f, dest, target, a)
    return eng.done(st, f, dest, target, as_iter(eng, st, a))


@model(r"~(^|::)(HashMap|IndexMap|BTreeMap)::(keys|values|into_keys|into_values|values_mut)$")
def map_keys(eng, st, f, path, targs, args, dest, target, sp, sk):
    v = eng.snap(st, args[0])
    return eng.done(st, f, dest, target, ("iter", ("call", norm(path).rsplit("::", 1)[1].replace("into_", ""), (v,), None)))


@model(r"~^core::slice::.*::sort_unstable(_by|_by_key)?$", r"~^(alloc|std)::slice::.*::sort(_by|_by_key|_by_cached_key)?$")
def sort(eng, st, f, path, targs, args, dest, target, sp, sk):
    """The elements of a set in some order are still those of the set; sorting any other sequence permutes it."""
    if args[0][0] == "ref":
        v = eng.deref(st, args[0])
        ty = eng.type_of(v)
        while ty and ty[0] in ("ref", "ptr"):
            ty = ty[1]
        if not (ty and ty[0] == "adt" and ty[1].endswith(("::HashSet", "::BTreeSet", "::HashMap", "::BTreeMap"))):
            eng.write(st, args[0][1], args[0][2], ("mut", eng.strip_mut(v), path, (f.ctx, sk)))
    return eng.done(st, f, dest, target, UNIT)


@model(r"~(^|::)(Vec|HashMap|IndexMap|HashSet|VecDeque)::drain$")
def drain(eng, st, f, path, targs, args, dest, target, sp, sk):
    v = as_iter(eng, st, args[0])
    if args[0][0] == "ref":
        eng.write(st, *place_of(eng, st, args[0]), EMPTY)
    elif len(args) == 1 or True:
        st.store[("obj", args[0])] = EMPTY
    return eng.done(st, f, dest, target, v)


@model("core::ops::range::RangeInclusive::new")
def range_incl(eng, st, f, path, targs, args, dest, target, sp, sk):
    return eng.done(st, f, dest, target, ("range", eng.snap(st, args[0]), eng.snap(st, args[1])))


def adaptor(kind):
    def m(eng, st, f, path, targs, args, dest, target, sp, sk):
        a = args[0]
        d = eng.deref(st, a)
        inner = a if a[0] == "ref" and (d[0] == "iter" or d[0] == "agg" and d[1][0] == "it") else as_iter(eng, st, a)
        extra = tuple(args[1:])
        if kind in ("zip", "chain"):
            extra = (as_iter(eng, st, args[1]),)
        if kind == "enumerate":
            extra = (K(0),)
        return eng.done(st, f, dest, target, ("agg", ("it", kind), None, (inner,) + extra))
    return m


for k in ("map", "enumerate", "zip", "filter", "filter_map", "take", "skip", "rev", "chain", "inspect", "take_while", "map_while"):
    M["core::iter::traits::iterator::Iterator::" + k] = adaptor(k)
M["core::iter::traits::double_ended::DoubleEndedIterator::rev"] = adaptor("rev")


def iter_src(eng, st, it):
    """The collection an iterator walks (for loop labels)."""
    it = eng.deref(st, it)
    if it[0] == "iter":
        return it[1]
    if it[0] == "range":
        return ("count", it)
    if it[0] == "agg" and it[1][0] == "it":
        return iter_src(eng, st, it[3][0])
    if it[0] == "agg" and it[1][0] == "adt" and it[1][1].endswith("::Range"):
        a, b = it[3]
        return eng.count_src(b) if a[0] == "k" and a[1] == 0 else ("count", ("bin", "Sub", b, a))
    return ("count", it)


# Synthetic bodies -----------------------------------------------------------
def L(i, *proj):
    return ("pl", (i, tuple(proj)))


SOMEP = (("as", 1, "Some"), (".", 0, "0", OPTP))


def mk(name, argc, nloc, blocks):
    b = Body()
    b.path = name
    b.kind = "synthetic"
    b.crate = None
    b.gen = []
    b.parent = None
    b.span = "<library model>"
    b.argc = argc
    b.locals = [None] * nloc
    b.names = {}
    b.promoted = []
    b.captures = None
    b.abi = b.export = b.sig = None
    b.pub = False
    b._live = b._heads = None
    b.blocks = [(tuple(s), t, "<library model>", 0) for s, t in blocks]
    return b


def C(name, args, dst, to):
    return ("call", ("k", ("fn", name, ()), ("fnval",), None), tuple(args), (dst, ()), to, ("fn", name, ()), None, "<library model>")


def asg(d, rv):
    return ("=", (d, ()), rv)


def refm(i, *proj):
    return ("ref", "mut", (i, tuple(proj)))


FLD = lambda i: (".", i, str(i), "it")
SW = lambda loc, arms, other: ("switch", L(loc), tuple(arms), other, ("p", "isize"))
UNR = ([], ("unreachable",))
RET = ([], ("ret",))
NONE_RV = ("agg", ("adt", OPTP, 0, "None", (), (), None), ())
SOME_RV = lambda o: ("agg", ("adt", OPTP, 1, "Some", (), ("0",), None), (o,))

# map.next(): _1 = &mut it{inner, f}
MAP_NEXT = mk("$map.next", 1, 6, [
    ([asg(2, refm(1, ("*",), FLD(0)))], C("$next", [L(2)], 3, 1)),
    ([asg(4, ("discr", (3, ())))], SW(4, [(0, 2), (1, 3)], 5)),
    ([asg(0, NONE_RV)], ("ret",)),
    ([], C("$invoke1", [L(1, ("*",), FLD(1)), L(3, *SOMEP)], 5, 4)),
    ([asg(0, SOME_RV(L(5)))], ("ret",)),
    UNR,
])
INSPECT_NEXT = mk("$inspect.next", 1, 6, [
    ([asg(2, refm(1, ("*",), FLD(0)))], C("$next", [L(2)], 3, 1)),
    ([asg(4, ("discr", (3, ())))], SW(4, [(0, 2), (1, 3)], 5)),
    ([asg(0, NONE_RV)], ("ret",)),
    ([], C("$invoke1", [L(1, ("*",), FLD(1)), L(3, *SOMEP)], 5, 4)),
    ([asg(0, SOME_RV(L(3, *SOMEP)))], ("ret",)),
    UNR,
])
FILTER_NEXT = mk("$filter.next", 1, 6, [
    ([asg(2, refm(1, ("*",), FLD(0)))], C("$next", [L(2)], 3, 1)),
    ([asg(4, ("discr", (3, ())))], SW(4, [(0, 2), (1, 3)], 5)),
    ([asg(0, NONE_RV)], ("ret",)),
    ([], C("$invoke1", [L(1, ("*",), FLD(1)), L(3, *SOMEP)], 5, 4)),
    ([], ("switch", L(5), ((0, 0),), 6, ("p", "bool"))),
    UNR,
    ([asg(0, SOME_RV(L(3, *SOMEP)))], ("ret",)),
])
TAKEWHILE_NEXT = mk("$take_while.next", 1, 6, [
    ([asg(2, refm(1, ("*",), FLD(0)))], C("$next", [L(2)], 3, 1)),
    ([asg(4, ("discr", (3, ())))], SW(4, [(0, 2), (1, 3)], 5)),
    ([asg(0, NONE_RV)], ("ret",)),
    ([], C("$invoke1", [L(1, ("*",), FLD(1)), L(3, *SOMEP)], 5, 4)),
    ([], ("switch", L(5), ((0, 2),), 6, ("p", "bool"))),
    UNR,
    ([asg(0, SOME_RV(L(3, *SOMEP)))], ("ret",)),
])
FMAP_NEXT = mk("$filter_map.next", 1, 7, [
    ([asg(2, refm(1, ("*",), FLD(0)))], C("$next", [L(2)], 3, 1)),
    ([asg(4, ("discr", (3, ())))], SW(4, [(0, 2), (1, 3)], 5)),
    ([asg(0, NONE_RV)], ("ret",)),
    ([], C("$invoke1", [L(1, ("*",), FLD(1)), L(3, *SOMEP)], 5, 4)),
    ([asg(6, ("discr", (5, ())))], SW(6, [(0, 0), (1, 6)], 5)),
    UNR,
    ([asg(0, ("use", L(5)))], ("ret",)),
])
ENUM_NEXT = mk("$enumerate.next", 1, 6, [
    ([asg(2, refm(1, ("*",), FLD(0)))], C("$next", [L(2)], 3, 1)),
    ([asg(4, ("discr", (3, ())))], SW(4, [(0, 2), (1, 3)], 4)),
    ([asg(0, NONE_RV)], ("ret",)),
    ([], C("$enumpair", [L(1), L(3, *SOMEP)], 5, 5)),
    UNR,
    ([asg(0, SOME_RV(L(5)))], ("ret",)),
])
ZIP_NEXT = mk("$zip.next", 1, 8, [
    ([asg(2, refm(1, ("*",), FLD(0)))], C("$next", [L(2)], 3, 1)),
    ([asg(4, ("discr", (3, ())))], SW(4, [(0, 2), (1, 3)], 5)),
    ([asg(0, NONE_RV)], ("ret",)),
    ([asg(2, refm(1, ("*",), FLD(1)))], C("$next", [L(2)], 6, 4)),
    ([asg(4, ("discr", (6, ())))], SW(4, [(0, 2), (1, 6)], 5)),
    UNR,
    ([asg(7, ("agg", ("tuple",), (L(3, *SOMEP), L(6, *SOMEP)))), asg(0, SOME_RV(L(7)))], ("ret",)),
])
CHAIN_NEXT = mk("$chain.next", 1, 6, [
    ([asg(2, refm(1, ("*",), FLD(0)))], C("$next", [L(2)], 3, 1)),
    ([asg(4, ("discr", (3, ())))], SW(4, [(0, 2), (1, 3)], 4)),
    ([asg(2, refm(1, ("*",), FLD(1)))], C("$next", [L(2)], 0, 5)),
    ([asg(0, ("use", L(3)))], ("ret",)),
    UNR,
    RET,
])
REV_NEXT = mk("$rev.next", 1, 6, [
    ([asg(2, refm(1, ("*",), FLD(0)))], C("$nextback", [L(2)], 0, 1)),
    RET,
])
# collect: _1 = iterator (by value)
COLLECT = mk("$collect", 1, 8, [
    ([], C("$empty", [], 2, 1)),
    ([asg(3, refm(1))], C("$next", [L(3)], 4, 2)),
    ([asg(5, ("discr", (4, ())))], SW(5, [(0, 3), (1, 4)], 6)),
    ([asg(0, ("use", L(2)))], ("ret",)),
    ([asg(6, refm(2))], C("$push", [L(6), L(4, *SOMEP)], 7, 5)),
    ([], ("goto", 1)),
    UNR,
])
OKP = (("as", 0, "Ok"), (".", 0, "0", RESP))
ERRP = (("as", 1, "Err"), (".", 0, "0", RESP))
OK_RV = lambda o: ("agg", ("adt", RESP, 0, "Ok", (), ("0",), None), (o,))
ERR_RV = lambda o: ("agg", ("adt", RESP, 1, "Err", (), ("0",), None), (o,))
COLLECT_RES = mk("$collect_result", 1, 10, [
    ([], C("$empty", [], 2, 1)),
    ([asg(3, refm(1))], C("$next", [L(3)], 4, 2)),
    ([asg(5, ("discr", (4, ())))], SW(5, [(0, 3), (1, 4)], 6)),
    ([asg(0, OK_RV(L(2)))], ("ret",)),
    ([asg(8, ("use", L(4, *SOMEP)))], C("$splitres", [L(8)], 9, 7)),
    ([], ("goto", 1)),
    UNR,
    ([asg(5, ("discr", (9, ())))], SW(5, [(0, 8), (1, 9)], 6)),
    ([asg(6, refm(2))], C("$push", [L(6), L(9, *OKP)], 7, 5)),
    ([asg(0, ERR_RV(L(9, *ERRP)))], ("ret",)),
])
FOREACH = mk("$for_each", 2, 8, [
    ([asg(3, refm(1))], C("$next", [L(3)], 4, 1)),
    ([asg(5, ("discr", (4, ())))], SW(5, [(0, 2), (1, 3)], 5)),
    ([asg(0, ("agg", ("tuple",), ()))], ("ret",)),
    ([], C("$invoke1", [L(2), L(4, *SOMEP)], 6, 4)),
    ([], ("goto", 0)),
    UNR,
])
TRYFOREACH = mk("$try_for_each", 2, 9, [
    ([asg(3, refm(1))], C("$next", [L(3)], 4, 1)),
    ([asg(5, ("discr", (4, ())))], SW(5, [(0, 2), (1, 3)], 5)),
    ([asg(6, ("agg", ("tuple",), ())), asg(0, OK_RV(L(6)))], ("ret",)),
    ([], C("$invoke1", [L(2), L(4, *SOMEP)], 7, 4)),
    ([], C("$splitres", [L(7)], 8, 6)),
    UNR,
    ([asg(5, ("discr", (8, ())))], SW(5, [(0, 0), (1, 7)], 5)),
    ([asg(0, ("use", L(8)))], ("ret",)),
])
FOLD = mk("$fold", 3, 9, [
    ([asg(4, refm(1))], C("$next", [L(4)], 5, 1)),
    ([asg(6, ("discr", (5, ())))], SW(6, [(0, 2), (1, 3)], 5)),
    ([asg(0, ("use", L(2)))], ("ret",)),
    ([], C("$invoke2", [L(3), L(2), L(5, *SOMEP)], 7, 4)),
    ([asg(2, ("use", L(7)))], ("goto", 0)),
    UNR,
])
ANY = mk("$any", 2, 8, [
    ([], C("$next", [L(1)], 4, 1)),
    ([asg(5, ("discr", (4, ())))], SW(5, [(0, 2), (1, 3)], 5)),
    ([asg(0, ("use", ("k", ("p", "bool"), ("int", "0"), None)))], ("ret",)),
    ([], C("$invoke1", [L(2), L(4, *SOMEP)], 6, 4)),
    ([], ("switch", L(6), ((0, 0),), 6, ("p", "bool"))),
    UNR,
    ([asg(0, ("use", ("k", ("p", "bool"), ("int", "1"), None)))], ("ret",)),
])
ALL = mk("$all", 2, 8, [
    ([], C("$next", [L(1)], 4, 1)),
    ([asg(5, ("discr", (4, ())))], SW(5, [(0, 2), (1, 3)], 5)),
    ([asg(0, ("use", ("k", ("p", "bool"), ("int", "1"), None)))], ("ret",)),
    ([], C("$invoke1", [L(2), L(4, *SOMEP)], 6, 4)),
    ([], ("switch", L(6), ((0, 6),), 0, ("p", "bool"))),
    UNR,
    ([asg(0, ("use", ("k", ("p", "bool"), ("int", "0"), None)))], ("ret",)),
])
FIND = mk("$find", 2, 8, [
    ([], C("$next", [L(1)], 4, 1)),
    ([asg(5, ("discr", (4, ())))], SW(5, [(0, 2), (1, 3)], 5)),
    ([asg(0, NONE_RV)], ("ret",)),
    ([], C("$invoke1", [L(2), L(4, *SOMEP)], 6, 4)),
    ([], ("switch", L(6), ((0, 0),), 6, ("p", "bool"))),
    UNR,
    ([asg(0, SOME_RV(L(4, *SOMEP)))], ("ret",)),
])
POSITION = mk("$position", 2, 9, [
    ([], C("$next", [L(1)], 4, 1)),
    ([asg(5, ("discr", (4, ())))], SW(5, [(0, 2), (1, 3)], 5)),
    ([asg(0, NONE_RV)], ("ret",)),
    ([], C("$invoke1", [L(2), L(4, *SOMEP)], 6, 4)),
    ([], ("switch", L(6), ((0, 0),), 6, ("p", "bool"))),
    UNR,
    ([], C("$index_of", [L(4, *SOMEP)], 7, 7)),
    ([asg(0, SOME_RV(L(7)))], ("ret",)),
])
EXTEND = mk("$extend", 2, 8, [
    ([asg(3, refm(2))], C("$next", [L(3)], 4, 1)),
    ([asg(5, ("discr", (4, ())))], SW(5, [(0, 2), (1, 3)], 5)),
    ([asg(0, ("agg", ("tuple",), ()))], ("ret",)),
    ([], C("$push", [L(1), L(4, *SOMEP)], 6, 4)),
    ([], ("goto", 0)),
    UNR,
])
NEXTS = {"map": MAP_NEXT, "filter": FILTER_NEXT, "filter_map": FMAP_NEXT, "enumerate": ENUM_NEXT, "zip": ZIP_NEXT,
         "chain": CHAIN_NEXT, "rev": REV_NEXT, "inspect": INSPECT_NEXT, "take_while": TAKEWHILE_NEXT}


@model("$empty")
def m_empty(eng, st, f, path, targs, args, dest, target, sp, sk):
    return eng.done(st, f, dest, target, EMPTY)


@model("$index_of")
def m_index_of(eng, st, f, path, targs, args, dest, target, sp, sk):
    return eng.done(st, f, dest, target, ("call", "index_of", (eng.snap(st, args[0]),), None))


@model("$push")
def m_push(eng, st, f, path, targs, args, dest, target, sp, sk):
    coll_add(eng, st, args[0], eng.snap(st, args[1]))
    return eng.done(st, f, dest, target, UNIT)


@model("$invoke1", "$invoke2")
def m_invoke(eng, st, f, path, targs, args, dest, target, sp, sk):
    return eng.invoke(st, f, args[0], args[1:], dest, target, sp, (sk, "inv"))


@model("$splitres")
def m_splitres(eng, st, f, path, targs, args, dest, target, sp, sk):
    d = eng.deref(st, args[0])
    adt = RESP
    out = []
    if d[0] == "agg" and d[1] == OPT:
        return eng.done(st, f, dest, target, ok(d[3][0]) if d[2] == 1 else err(("none",)))
    if d[0] == "agg" and d[1][0] == "adt" and d[1] != RES:
        return eng.done(st, f, dest, target, ok(d))
    for i, p, s in split(eng, st, args[0], adt, f, sp):
        out += eng.done(s, f, dest, target, ("agg", RES, i, tuple(p)))
    return out


@model("$enumpair")
def m_enumpair(eng, st, f, path, targs, args, dest, target, sp, sk):
    it = eng.deref(st, args[0])
    c, p = place_of(eng, st, args[0]) if args[0][0] == "ref" else (None, None)
    inner = eng.deref(st, it[3][0]) if it[0] == "agg" else ("top",)
    cnt = it[3][1] if it[0] == "agg" else ("top",)
    known = inner[0] == "agg" and inner[1] == ("it", "known")
    if known and cnt[0] == "k":
        eng.write(st, c, p, ("agg", it[1], None, (it[3][0], K(cnt[1] + 1))))
        i = cnt
    else:
        i = ("ctr", iter_src(eng, st, inner))
    return eng.done(st, f, dest, target, tup(i, args[1]))


def next_core(eng, st, f, ref, dest, target, sp, sk, back=False):
    it = eng.deref(st, ref)
    if ref[0] == "ref":
        cell, proj = place_of(eng, st, ref)
    else:
        cell, proj = ("obj", ref), ()
    k = it[1] if it[0] == "agg" else None
    if it[0] == "agg" and k[0] == "it" and k[1] == "known":
        arr, pos = it[3]
        n = len(arr[3])
        if pos[0] == "k" and pos[1] < n:
            eng.write(st, cell, proj, ("agg", k, None, (arr, K(pos[1] + 1))))
            return eng.done(st, f, dest, target, some(arr[3][n - 1 - pos[1] if back else pos[1]]))
        if pos[0] == "k":
            return eng.done(st, f, dest, target, NONE)
        it = ("iter", arr)
    if it[0] == "agg" and k[0] == "it" and k[1] in NEXTS and not (back and k[1] not in ("map", "rev", "enumerate")):
        b = NEXTS[k[1]]
        return [eng.push(st, f, b, (), [ref], dest, target, (sk, "nx"), sp)]
    if it[0] == "agg" and k[0] == "it" and k[1] in ("take", "skip"):
        # length-limited walk: the limit is the loop bound
        inner = it[3][0]
        n = eng.snap(st, it[3][1])
        src = eng.count_src(n) if k[1] == "take" else ("count", ("skip", iter_src(eng, st, inner), n))
        el = elem_of(eng, st, inner) if k[1] == "take" else ("item", ("skip", iter_src(eng, st, inner), n))
        return fork_next(eng, st, f, src, el, dest, target, sp)
    if it[0] == "agg" and k[0] == "adt" and k[1].endswith("::Range"):
        a, b = it[3]
        a, b = eng.snap(st, a), eng.snap(st, b)
        if a[0] == "k" and b[0] == "k":
            if b[1] - a[1] <= 72:
                if a[1] >= b[1]:
                    return eng.done(st, f, dest, target, NONE)
                if back:
                    eng.write(st, cell, proj, ("agg", k, it[2], (a, ("k", b[1] - 1, b[2]))))
                    return eng.done(st, f, dest, target, some(("k", b[1] - 1, b[2])))
                eng.write(st, cell, proj, ("agg", k, it[2], (("k", a[1] + 1, a[2]), b)))
                return eng.done(st, f, dest, target, some(a))
        src = iter_src(eng, st, it)
        return fork_next(eng, st, f, src, ("ctr", src), dest, target, sp)
    if it[0] == "range":
        src = ("count", it)
        return fork_next(eng, st, f, src, ("ctr", src), dest, target, sp)
    wb = ws_iter(eng, it)
    if wb is not None and ref[0] == "ref":
        return [eng.push(st, f, wb, tuple(None for _ in wb.gen), [ref], dest, target, (sk, "wsnx"), sp)]
    if it[0] == "iter":
        return fork_next(eng, st, f, it[1], elem_of(eng, st, it), dest, target, sp)
    v = ("call", "next", (eng.snap(st, it),), (f.ctx, sk))
    eng.forget(st, v)
    src = ("count", eng.snap(st, it))
    return fork_next(eng, st, f, src, ("fld", v, "Some", "0"), dest, target, sp)


def elem_of(eng, st, it):
    it = eng.deref(st, it)
    if it[0] == "iter":
        x = it[1]
        if x[0] == "seq" and x[1]:
            return next(iter(x[1])) if len(x[1]) == 1 else ("alt", x[1])
        if x[0] == "agg" and x[1][0] == "array" and x[3]:
            return x[3][0] if len(set(x[3])) == 1 else ("alt", frozenset(x[3]))
        if x[0] == "appended" and False:
            pass
        return ("item", x)
    if it[0] == "agg" and it[1] == ("it", "known"):
        a = it[3][0]
        return ("alt", frozenset(a[3])) if a[3] else ("top",)
    return ("item", it)


def fork_next(eng, st, f, src, el, dest, target, sp):
    out = []
    for val in (True, False):
        s = st.copy()
        if not eng.rule.on_more(eng, s, src, val, (f, sp)):
            continue
        if val:
            for t in list(subterms(el)):
                if t[0] in ("item", "ctr"):
                    eng.forget(s, t)
            out += eng.done(s, f, dest, target, some(el))
        else:
            out += eng.done(s, f, dest, target, NONE)
    return out


@model("$next", "core::iter::traits::iterator::Iterator::next")
def m_next(eng, st, f, path, targs, args, dest, target, sp, sk):
    return next_core(eng, st, f, args[0], dest, target, sp, sk)


@model("$nextback", "core::iter::traits::double_ended::DoubleEndedIterator::next_back")
def m_nextback(eng, st, f, path, targs, args, dest, target, sp, sk):
    return next_core(eng, st, f, args[0], dest, target, sp, sk, True)


@model("core::iter::traits::iterator::Iterator::collect", "core::iter::traits::collect::FromIterator::from_iter")
def collect(eng, st, f, path, targs, args, dest, target, sp, sk):
    it = as_iter(eng, st, args[0])
    B = (targs[1] if path.endswith("collect") else targs[0]) if len(targs) > 1 else None
    res = bool(B and B[0] == "adt" and B[1] in (RESP, OPTP))
    if it[0] == "iter" and not res:
        return eng.done(st, f, dest, target, it[1])
    if it == ("agg", ("it", "known"), None, (it[3][0] if it[0] == "agg" and it[3] else None, K(0))) and not res:
        return eng.done(st, f, dest, target, it[3][0])
    return [eng.push(st, f, COLLECT_RES if res else COLLECT, (), [it], dest, target, (sk, "collect"), sp)]


def consumer(body, byref=False):
    def m(eng, st, f, path, targs, args, dest, target, sp, sk):
        a0 = args[0]
        if not byref:
            a0 = as_iter(eng, st, a0)
        elif a0[0] != "ref":
            st.store[("obj", ("tmpit", f.ctx, sk))] = as_iter(eng, st, a0)
            a0 = ("ref", ("obj", ("tmpit", f.ctx, sk)), ())
        return [eng.push(st, f, body, (), [a0] + list(args[1:]), dest, target, (sk, "cons"), sp)]
    return m


_I = "core::iter::traits::iterator::Iterator::"
M[_I + "for_each"] = consumer(FOREACH)
M[_I + "try_for_each"] = consumer(TRYFOREACH)
M[_I + "fold"] = consumer(FOLD)
M[_I + "any"] = consumer(ANY, True)
M[_I + "all"] = consumer(ALL, True)
M[_I + "find"] = consumer(FIND, True)
M[_I + "position"] = consumer(POSITION, True)


@model(r"~^core::iter::traits::iterator::Iterator::(sum|count|min|max|last|nth|product|max_by_key|min_by_key|reduce)$")
def iter_agg(eng, st, f, path, targs, args, dest, target, sp, sk):
    n = path.rsplit("::", 1)[1]
    it = eng.snap(st, as_iter(eng, st, args[0]))
    if n == "count" and it[0] == "iter":
        return eng.done(st, f, dest, target, eng.length(st, it[1]))
    return eng.done(st, f, dest, target, ("call", "iter_" + n, (it,) + tuple(eng.snap(st, a) for a in args[1:]), None))


# ---------------------------------------------------------------- functions
@model("core::ops::function::FnOnce::call_once", "core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut")
def fn_call(eng, st, f, path, targs, args, dest, target, sp, sk):
    t = eng.deref(st, args[1]) if len(args) > 1 else UNIT
    a = list(t[3]) if t[0] == "agg" else [t]
    return eng.invoke(st, f, args[0], a, dest, target, sp, (sk, "fn"))


# ---------------------------------------------------------------- futures
def run_future(eng, st, f, fut, dest, target, sp, sk, wrap):
    v = eng.deref(st, fut)
    if v[0] == "agg" and v[1][0] == "coroutine":
        body = eng.P.bodies.get(v[1][1])
        if body is not None and sum(1 for x in st.frames if x.body is body) < 2 and not eng.rule.opaque(body.path, body):
            return [eng.push(st, f, body, v[1][2], [v], dest, target, (sk, "await"), sp, wrap)]
    t = v[2][0] if v[0] == "call" and v[1] == "ready" else ("await", eng.snap(st, v))
    r = wrap(eng, st, t) if wrap else t
    return eng.done(st, f, dest, target, r)


@model("core::future::future::Future::poll")
def poll(eng, st, f, path, targs, args, dest, target, sp, sk):
    return run_future(eng, st, f, args[0], dest, target, sp, sk, lambda e, s, v: ("agg", POLL, 0, (v,)))


@model("tokio::runtime::Runtime::block_on", "tokio::runtime::runtime::Runtime::block_on", "tokio::runtime::handle::Handle::block_on",
       "futures_executor::local_pool::block_on")
def block_on(eng, st, f, path, targs, args, dest, target, sp, sk):
    return run_future(eng, st, f, args[-1], dest, target, sp, sk, None)


@model("core::future::get_context")
def get_context(eng, st, f, path, targs, args, dest, target, sp, sk):
    return eng.done(st, f, dest, target, UNIT)


@model("std::panic::catch_unwind", "std::panicking::catch_unwind")
def catch_unwind(eng, st, f, path, targs, args, dest, target, sp, sk):
    s2 = st.copy()
    eng.rule.on_unwind(eng, s2)
    out = eng.invoke(st, f, unwrap_aus(eng, st, args[0]), [], dest, target, sp, (sk, "cu"), W_CAUGHT)
    out += eng.done(s2, f, dest, target, err(("call", "panic_payload", (), (f.ctx, sk))))
    return out


def unwrap_aus(eng, st, v):
    v = eng.deref(st, v)
    if v[0] == "agg" and v[1][0] == "adt" and v[1][1].endswith("AssertUnwindSafe"):
        return v[3][0]
    return v


# ---------------------------------------------------------------- hashing
@model("blake3::Hasher::new", "blake3::Hasher::default")
def hash_new(eng, st, f, path, targs, args, dest, target, sp, sk):
    return eng.done(st, f, dest, target, ("call", "hasher", (), None))


@model("blake3::Hasher::update")
def hash_update(eng, st, f, path, targs, args, dest, target, sp, sk):
    if args[0][0] != "ref":
        return None
    cur, x = eng.snap(st, args[0]), eng.snap(st, args[1])
    old = cur[2] if cur[0] == "call" and cur[1] == "hasher" else (cur,) if not (cur[0] == "call" and cur[1].endswith("default")) else ()
    eng.write(st, *place_of(eng, st, args[0]), ("call", "hasher", old + (x,), None))
    return eng.done(st, f, dest, target, args[0])


@model("blake3::Hasher::finalize")
def hash_final(eng, st, f, path, targs, args, dest, target, sp, sk):
    cur = eng.snap(st, args[0])
    return eng.done(st, f, dest, target, ("call", "digest", cur[2] if cur[0] == "call" and cur[1] == "hasher" else (cur,), None))


@model("blake3::Hash::as_bytes")
def hash_bytes(eng, st, f, path, targs, args, dest, target, sp, sk):
    return eng.done(st, f, dest, target, args[0])


# ---------------------------------------------------------------- quiet
@model(r"~^(core|alloc|std)::fmt::", r"~^tracing", r"~^log::", r"~^std::io::stdio::_e?print")
def quiet(eng, st, f, path, targs, args, dest, target, sp, sk):
    if target is None:
        return None
    if path.startswith(("tracing", "log")):
        return eng.done(st, f, dest, target, ("call", "log", (), None))
    return eng.done(st, f, dest, target, ("call", norm(path), tuple(eng.snap(st, a) for a in args), None))


PURE = re.compile(r"^(core|alloc|hex|sha2|blake3)::")


@model(r"~^(core|alloc|hex)::")
def pure_std(eng, st, f, path, targs, args, dest, target, sp, sk):
    if target is None:
        return None
    term = f.body.blocks[f.bb][1]
    if term[0] == "call" and any(a[0] == "ref" and eng.mut_arg(f, term, i) for i, a in enumerate(args)):
        return None
    eng.opaque_calls[path] += 1
    return eng.done(st, f, dest, target, ("call", norm(path), tuple(eng.snap(st, a) for a in args), None))

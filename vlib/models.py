"""Trusted models of std, text-size and countme functions (each use is counted
and reported as an assumption), iterator adaptors and search loops."""
import re
import z3
from exec import (Agg, SEnum, Opq, FnItem, Ptr, UNIT, NONE, SOME, Unsupported, I, B, And, Or, Implies, Not, U32, BITS,
                  callee, parse_ty, last_seg, State, ENUMS)


class It:
    """iterator value.  kinds: slice(src,lo,hi) enum(inner,off) rev(inner) skip(inner,n) range(lo,hi)
    map/filter/filter_map(inner,f) succ(next,f) opq(...)"""
    __slots__ = ('k', 'd')

    def __init__(self, k, **d):
        self.k, self.d = k, d

    def __repr__(self):
        return 'It(%s,%s)' % (self.k, self.d)

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def with_(self, **kw):
        d = dict(self.d)
        d.update(kw)
        return It(self.k, **d)

    def values(self):
        return [v for k, v in self.d.items() if isinstance(v, (Agg, SEnum, It)) and k != 'src']


def z3min0(x):
    return z3.If(x >= 0, x, z3.IntVal(0))


# methods of green::Children that std adaptors may call
CHILDREN_DEPS = []


class View:
    """random access: base indices lo..hi, direction, at(m)"""

    def __init__(self, lo, hi, fwd, at, rebuild):
        self.lo, self.hi, self.fwd, self.at, self.rebuild = lo, hi, fwd, at, rebuild

    def length(self):
        return self.hi - self.lo


def as_it(ex, v):
    if isinstance(v, Agg) and v.ty == 'Children':
        return v.f[0]
    return v


def view(ex, st, it):
    if isinstance(it, Agg) and it.ty == 'Children':
        w = view(ex, st, it.f[0])
        if not (ex.cur or '').startswith('<Children as'):
            ex.used.update(CHILDREN_DEPS)       # std's adaptors may use any of the overridden methods
        return View(w.lo, w.hi, w.fwd, lambda s, m, w=w: stdchild(ex, s, w.at(s, m)),
                    lambda lo, hi, w=w: it.with_(0, w.rebuild(lo, hi)))
    if not isinstance(it, It):
        raise Unsupported('iterator %r' % (it,))
    if it.k == 'slice':
        return View(it.lo, it.hi, True, lambda s, m: src_item(ex, s, it.src, m), lambda lo, hi: it.with_(lo=lo, hi=hi))
    if it.k == 'range':
        return View(it.lo, it.hi, True, lambda s, m: m, lambda lo, hi: it.with_(lo=lo, hi=hi))
    if it.k == 'enum':
        w = view(ex, st, it.inner)
        if not w.fwd:
            raise Unsupported('enumerate of a reversed iterator')
        return View(w.lo, w.hi, True, lambda s, m: Agg('()', [m - it.base, w.at(s, m)]),
                    lambda lo, hi: it.with_(inner=w.rebuild(lo, hi)))
    if it.k == 'rev':
        w = view(ex, st, it.inner)
        return View(w.lo, w.hi, not w.fwd, w.at, lambda lo, hi: it.with_(inner=w.rebuild(lo, hi)))
    if it.k == 'skip':
        w = view(ex, st, it.inner)
        n = it.n
        if w.fwd:
            lo = z3.If(w.lo + n <= w.hi, w.lo + n, w.hi)
            return View(lo, w.hi, True, w.at, lambda lo, hi: It('skip', inner=w.rebuild(lo, hi), n=z3.IntVal(0)))
        hi = z3.If(w.hi - n >= w.lo, w.hi - n, w.lo)
        return View(w.lo, hi, False, w.at, lambda lo, hi: It('skip', inner=w.rebuild(lo, hi), n=z3.IntVal(0)))
    raise Unsupported('random access over %s' % it.k)


def src_item(ex, st, src, m):
    if src[0] == 'green':
        g = src[1]
        import world as w
        st.add(w.cfacts(g, m))
        return Ptr(('gc', g, m))
    if src[0] == 'fn':
        return src[1](st, m)
    raise Unsupported('slice source')


def stdchild(ex, st, p):
    """Children's item: GreenChild::as_ref(&child)"""
    f = ex.P.bykey.get('GreenChild::as_ref')
    out = ex.call(st, 'green::node::GreenChild::as_ref', [p], None)
    return merge_enum(ex, st, out)


def merge_enum(ex, st, outs):
    """outcomes of a pure two-way function as one lazily split enum value"""
    if len(outs) == 1 and outs[0][0] is st:
        return outs[0][1]
    base = len(st.pc)
    ps = [v for _, v in outs]
    if all(isinstance(v, Ptr) and isinstance(v.base, tuple) and len(v.base) == 2 and v.path == () for v in ps) or all(z3.is_expr(v) for v in ps):
        # addresses or scalars: one term selected by the path
        term = lambda v: v.base[1] if isinstance(v, Ptr) else v
        e = term(ps[-1])
        for s, v in reversed(outs[:-1]):
            e = z3.If(And(True, *s.pc[base:]), term(v), e)
        st.add(Or(*[And(True, *s.pc[base:]) for s, _ in outs]))
        if z3.is_expr(ps[0]):
            return e
        tags = {v.base[0] for v in ps}
        if len(tags) == 1 or tags == {'gn', 'gt'}:
            return Ptr((tags.pop() if len(tags) == 1 else 'addr', e))
        raise Unsupported('merge of pointers')
    vs, conds = {}, []
    for s, v in outs:
        if not (isinstance(v, SEnum) and v.conc()):
            raise Unsupported('merge')
        vs[v.d] = v.vs[v.d]
        conds.append((v.d, And(True, *s.pc[base:])))
    if len(vs) != len(outs):
        raise Unsupported('merge of overlapping outcomes')
    d = I(conds[-1][0])
    for i, c in conds[:-1]:
        d = z3.If(c, I(i), d)
    return SEnum(outs[0][1].ty, d, vs)


# ---------------------------------------------------------------- search loops
def new_syms(ex, start, forms):
    out = {}
    seen = set()

    def walk(e):
        if e.get_id() in seen:
            return
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            m = re.search(r'!(\d+)$', e.decl().name())
            if m and int(m.group(1)) > start:
                out[e.decl().name()] = e
        if z3.is_quantifier(e):
            walk(e.body())
            return
        for c in e.children():
            walk(c)
    for f in forms:
        walk(f)
    return list(out.values())


def net_zero(ex, st, evs, what):
    """balance events cancel out"""
    if not evs:
        return
    ids = {}
    for g, k, t, d in evs:
        ids.setdefault((k, str(t), str(g)), [0])[0] += d
    if all(v[0] == 0 for v in ids.values()):
        return
    x = ex.sym('x')
    for k in {e[1] for e in evs}:
        tot = z3.Sum([z3.If(And(g, I(t) == x), z3.IntVal(d), z3.IntVal(0)) for g, kk, t, d in evs if kk == k])
        ex.oblige(st, '%s: handles balanced in %s' % (ex.cur, what), tot == 0, 'mem')


def search(ex, st, it, body, what):
    """run body on successive items until it stops.
    body(state, item) -> [(state, stop?, payload)] ; -> [(state, iterator, payload or None)]"""
    w = view(ex, st, it)
    m = ex.sym('m')
    start = ex.ctr
    s0 = st.fork()
    s0.add(w.lo <= m, m < w.hi)
    item = w.at(s0, m)
    base = len(s0.pc)
    prefix = list(s0.pc)
    nbal, nev = len(s0.bal), len(s0.ev)
    outs = body(s0.fork(), item)
    nones = []
    for s, stop, payload in outs:
        if stop:
            continue
        net_zero(ex, s, s.bal[nbal:], what)
        for c, v in st.mem.items():
            if s.mem.get(c) is not v:
                raise Unsupported('%s: the closure changes captured state' % what)
        if len(s.ev) != nev or any(s.H[k] is not st.H[k] for k in st.H):
            raise Unsupported('%s: the closure has effects' % what)
        if len(s.pc) < base or any(a is not b for a, b in zip(s.pc[:base], prefix)):
            raise Unsupported('%s: path condition changed' % what)
        nones.append(And(True, *s.pc[base:]))
    facts = s0.pc[len(st.pc) + 2:base]          # facts about item m added by at()
    none_m = Or(*nones) if nones else z3.BoolVal(False)
    ns = [x for x in new_syms(ex, start, [none_m] + [B(f) for f in facts]) if not x.eq(m)]

    def none_at(k):
        f = And(none_m, *facts)
        sub = [(m, k)]
        for c in ns:
            fn = z3.Function('sk_' + c.decl().name(), z3.IntSort(), c.sort())
            sub.append((c, fn(k)))
        return z3.substitute(f, *sub)

    def all_none(lo, hi):
        k = z3.Int('k!%d' % ex.ctr)
        ex.ctr += 1
        return z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), none_at(k)))

    res = []
    if nones:
        s = st.fork()
        s.add(all_none(w.lo, w.hi))
        # ground instances help: first and last item
        s.add(Implies(w.lo < w.hi, And(none_at(w.lo), none_at(w.hi - 1))))
        s.gh = dict(s.gh)
        res.append((s, w.rebuild(w.hi, w.hi) if w.fwd else w.rebuild(w.lo, w.lo), None))
    elif ex.feasible(st, w.lo >= w.hi):
        s = st.fork()
        s.add(w.lo >= w.hi)
        res.append((s, w.rebuild(w.hi, w.hi) if w.fwd else w.rebuild(w.lo, w.lo), None))
    for s, stop, payload in outs:
        if not stop:
            continue
        if nones:
            if w.fwd:
                s.add(all_none(w.lo, m), Implies(w.lo < m, And(none_at(w.lo), none_at(m - 1))))
            else:
                s.add(all_none(m + 1, w.hi), Implies(m + 1 < w.hi, And(none_at(w.hi - 1), none_at(m + 1))))
        else:
            s.add(m == w.lo if w.fwd else m == w.hi - 1)
        if ex.feasible(s):
            res.append((s, w.rebuild(m + 1, w.hi) if w.fwd else w.rebuild(w.lo, m), payload))
    return res


def opt_cases(ex, st, v):
    return ex.case(st, v)


def truth(ex, outs):
    """split outcomes of a boolean function"""
    res = []
    for s, b in outs:
        for s2, i in ex.branch(s, [b, Not(b)]):
            res.append((s2, i == 0))
    return res


# ---------------------------------------------------------------- iterator protocol
def it_next(ex, st, it, back=False):
    """-> [(state, new iterator, Option value)]"""
    if isinstance(it, It) and it.k in ('map', 'filter', 'filter_map', 'inspect'):
        res = []
        if it.k in ('map', 'inspect'):
            for s, ni, o in it_next(ex, st, it.inner, back):
                for s2, i, fs in ex.case(s, o):
                    if i == 0:
                        res.append((s2, it.with_(inner=ni), NONE()))
                    else:
                        for s3, r in ex.call_value(s2, fn_ptr(ex, s2, it.f), [fs[0]]):
                            res.append((s3, it.with_(inner=ni), SOME(r)))
            return res
        inner = it.inner

        def body(s, x):
            out = []
            if it.k == 'filter':
                p = ex.alloc(s, x)
                for s2, b in truth(ex, ex.call_value(s, fn_ptr(ex, s, it.f), [p])):
                    if b:
                        out.append((s2, True, x))
                    else:
                        for s3 in ex.drop_value(s2, x):
                            out.append((s3, False, None))
            else:
                for s2, r in ex.call_value(s, fn_ptr(ex, s, it.f), [x]):
                    for s3, i, fs in ex.case(s2, r):
                        out.append((s3, i == 1, fs[0] if i else None))
            return out
        return [(s, it.with_(inner=ni), NONE() if p is None else SOME(p)) for s, ni, p in
                run_search(ex, st, inner, body, it.k, back)]
    if isinstance(it, It) and it.k == 'chain2':
        raise Unsupported('chain')
    if isinstance(it, It) and it.k == 'succ':
        # take next; next = f(&x)
        res = []
        for s, i, fs in ex.case(st, it.next):
            if i == 0:
                res.append((s, it.with_(next=NONE()), NONE()))
                continue
            p = ex.alloc(s, fs[0])
            for s2, r in ex.call_value(s, fn_ptr(ex, s, it.f), [p]):
                res.append((s2, it.with_(next=r), SOME(fs[0])))
        return res
    if isinstance(it, It) and it.k == 'skip' and not random_access(it):
        n = z3.simplify(it.n)
        if not z3.is_int_value(n):
            raise Unsupported('skip by a symbolic amount')
        states = [(st, it.inner)]
        for _ in range(n.as_long()):
            nx = []
            for s, x in states:
                for s2, ni, o in it_next(ex, s, x, back):
                    for s3 in ex.drop_value(s2, o):
                        nx.append((s3, ni))
            states = nx
        res = []
        for s, x in states:
            for s2, ni, o in it_next(ex, s, x, back):
                res.append((s2, It('skip', inner=ni, n=z3.IntVal(0)), o))
        return res
    if isinstance(it, Agg) and it.ty != 'Children':
        # crate iterator by value: call its next
        p = ex.alloc(st, it)
        f = ex.P.bykey.get('<%s as Iterator>::next' % it.ty)
        if not f:
            raise Unsupported('next of %s' % it.ty)
        res = []
        for s, r in call_fn(ex, st, f[0], [p]):
            res.append((s, ex.load(s, p), r))
        return res
    if isinstance(it, Opq):
        return opaque_next(ex, st, it)
    w = view(ex, st, it)
    fwd = w.fwd != back
    res = []
    for s, i in ex.branch(st, [w.lo < w.hi, w.lo >= w.hi]):
        if i == 0:
            m = w.lo if fwd else w.hi - 1
            x = w.at(s, m)
            res.append((s, w.rebuild(w.lo + 1, w.hi) if fwd else w.rebuild(w.lo, w.hi - 1), SOME(x)))
        else:
            res.append((s, it, NONE()))
    return res


def opaque_next(ex, st, it):
    """next() of an arbitrary iterator: the n-th item of an abstract sequence"""
    raise Unsupported('next of an opaque iterator')


def random_access(it):
    if isinstance(it, Agg):
        return it.ty == 'Children'
    if it.k in ('slice', 'range'):
        return True
    if it.k in ('enum', 'rev', 'skip'):
        return random_access(it.inner)
    return False


def call_fn(ex, st, f, args):
    r = ex.W.intercept(ex, st, f, args)
    if r is not None:
        return r
    ct = ex.C.get(f.key)
    if ct is not None and not ct.inline:
        return ex.apply_contract(st, ct, f, args)
    m = ex.W.crate_model(ex, st, f, callee(f.name) if '<impl' not in f.name else None, args)
    if m is not None:
        return m
    ex.inlined.add(f.key)
    return ex.run_body(st, f, args)


def fn_ptr(ex, st, f):
    return f


def run_search(ex, st, it, body, what, back=False):
    if random_access(it):
        if back:
            it = It('rev', inner=it)
            res = search(ex, st, it, body, what)
            return [(s, ni.inner, p) for s, ni, p in res]
        return search(ex, st, it, body, what)
    if isinstance(it, It) and it.k == 'skip':
        n = z3.simplify(it.n)
        if not z3.is_int_value(n):
            raise Unsupported('skip by a symbolic amount')
        states = [(st, it.inner, [])]
        for _ in range(n.as_long()):
            nx = []
            for s, x, sk in states:
                for s2, ni, o in it_next(ex, s, x, back):
                    for s3, i, fs in ex.case(s2, o):
                        for s4 in ex.drop_value(s3, o):
                            nx.append((s4, ni, sk + list(fs)))
            states = nx
        res = []
        for s, x, sk in states:
            for s2, ni, p in search_seq(ex, s, x, body, what, sk):
                res.append((s2, It('skip', inner=ni, n=z3.IntVal(0)), p))
        return res
    base = it
    while isinstance(base, It) and base.k in ADAPT:
        base = base.inner
    if not back and isinstance(base, Agg) and base.ty in CHILD_ITERS and ex.cur not in ex.W.searches:
        if base is it:
            return search_children(ex, st, it, body, what)

        def body2(s, x):
            out = []
            for s2, r in ex.call_value(s, fn_ptr(ex, s, it.f), [ex.alloc(s, x) if it.k == 'filter' else x]):
                if it.k == 'map':
                    out += body(s2, r)
                elif it.k == 'filter_map':
                    for s3, i, fs in ex.case(s2, r):
                        out += body(s3, fs[0]) if i else [(s3, False, None)]
                else:
                    for s3, b in truth(ex, [(s2, r)]):
                        if b:
                            out += body(s3, x)
                        else:
                            out += [(s4, False, None) for s4 in ex.drop_value(s3, x)]
            return out
        return [(s, it.with_(inner=ni), p) for s, ni, p in run_search(ex, st, it.inner, body2, what)]
    return search_seq(ex, st, it, body, what)


ADAPT = ('map', 'filter', 'filter_map')
CHILD_ITERS = {}        # children iterators of the red layer: type -> abstract position (see spec_iter.Pos)


def search_children(ex, st, it, body, what):
    """a search over a children iterator whose next() contract says that it yields the children from the
    abstract position on, in order: every child passed satisfied the body's go-on condition.
    (induction over the iterations, as in search())"""
    P = CHILD_ITERS[it.ty]
    p0 = P(st, it)
    ex.oblige(st, '%s: the children iterator is consistent' % ex.cur, p0.inv, 'pre')
    lo0, g = p0.lo, p0.g
    start = ex.ctr
    s0 = st.fork()
    hit = ex.fresh(P.rust_ty(it), s0, 'it')
    ph = P(s0, hit)
    for gd, k, t in ex.W.handles(it):
        s0.bal.append((gd, k, t, -1))
    for gd, k, t in ex.W.handles(hit):
        s0.bal.append((gd, k, t, +1))
    s0.add(ph.inv, ph.parent == p0.parent, ph.lo >= lo0, ph.lo <= z3.If(lo0 > P.gn(g), lo0, P.gn(g)))
    base0 = len(st.pc)
    nodes = P.nodes(it)
    m = ex.sym('m')
    stops, ends, nones = [], [], []
    for s, ni, o in it_next(ex, s0.fork(), hit):
        for s2, i, fs in ex.case(s, o):
            if i == 0:
                ends.append((s2, ni))
                continue
            s2.add(m == P.index(s2, fs[0]))
            s2.add(m >= ph.lo, m < P.gn(g))
            nb = len(s0.bal)
            for s3, stop, payload in body(s2, fs[0]):
                if stop:
                    stops.append((s3, ni, payload))
                    continue
                for c, v in st.mem.items():
                    if s3.mem.get(c) is not v:
                        raise Unsupported('%s: the closure changes captured state' % what)
                if any(s3.H[k] is not st.H[k] for k in st.H if k != 'rc'):
                    raise Unsupported('%s: the closure has effects' % what)
                net_zero(ex, s3, s3.bal[nb:] + [(gd, k, t, +1) for gd, k, t in ex.W.handles(hit)] +
                         [(gd, k, t, -1) for gd, k, t in ex.W.handles(ni)], what)
                nones.append(And(True, *s3.pc[base0:]))
    none_m = Or(*nones) if nones else z3.BoolVal(False)
    ns = [x for x in new_syms(ex, start, [none_m]) if not x.eq(m)]

    def all_none(hi):
        k = z3.Int('k!%d' % ex.ctr)
        ex.ctr += 1
        sub = [(m, k)] + [(c, z3.Function('sk_' + c.decl().name(), z3.IntSort(), c.sort())(k)) for c in ns]
        return P.forall(g, lambda x: z3.substitute(z3.substitute(none_m, *sub), (k, x)), lo0, hi, nodes)
    res = []
    for s, ni in ends:
        s.add(all_none(P.gn(g)))
        if ex.feasible(s):
            res.append((s, ni, None))
    for s, ni, payload in stops:
        s.add(all_none(m))
        if ex.feasible(s):
            res.append((s, ni, payload))
    return res


def search_seq(ex, st, it, body, what, skipped=()):
    """search over an iterator without random access: needs a search invariant"""
    n = st.gh.get('searches', 0)
    st.gh['searches'] = n + 1
    inv = ex.W.searches.get(ex.cur)
    if inv is None:
        raise Unsupported('%s over %s in %s needs an invariant' % (what, getattr(it, 'k', it.ty if isinstance(it, Agg) else it), ex.cur))
    cx = SearchCx(ex, st, it, n, skipped)
    for nm, g in inv.inv(cx, st, it):
        ex.oblige(st, '%s: search invariant on entry: %s' % (ex.cur, nm), g, 'inv')
    s = st.fork()
    hit = inv.havoc(cx, s, it)
    for nm, g in inv.inv(cx, s, hit):
        s.add(g)
    # the handles owned by the havocked iterator replace those of the original one
    for g, k, t in ex.W.handles(it):
        s.bal.append((g, k, t, -1))
    for g, k, t in ex.W.handles(hit):
        s.bal.append((g, k, t, +1))
    if not ex.feasible(s):
        raise Unsupported('search invariant is unsatisfiable')
    res = []
    for s2, ni, o in it_next(ex, s, hit):
        for s3, i, fs in ex.case(s2, o):
            if i == 0:
                res.append((s3, ni, None))
                continue
            nbal = len(s3.bal)
            for s4, stop, payload in body(s3, fs[0]):
                if stop:
                    res.append((s4, ni, payload))
                else:
                    for nm, g in inv.inv(cx, s4, ni):
                        ex.oblige(s4, '%s: search invariant preserved: %s' % (ex.cur, nm), g, 'inv')
                    evs = s4.bal[len(s.bal):] + [(g, k, t, +1) for g, k, t in ex.W.handles(hit)] + \
                        [(g, k, t, -1) for g, k, t in ex.W.handles(ni)]
                    net_zero(ex, s4, evs, 'a search step')
    return res


class SearchCx:
    def __init__(self, ex, st, it, n, skipped):
        self.ex, self.entry, self.it0, self.n, self.skipped = ex, st, it, n, skipped


# ---------------------------------------------------------------- option-like helpers
def opt_map(ex, st, o, f, wrap=True):
    res = []
    for s, i, fs in ex.case(st, o):
        if i == 0:
            for s2 in drop_fn(ex, s, f):
                res.append((s2, NONE()))
        else:
            for s2, r in ex.call_value(s, f, [fs[0]]):
                res.append((s2, SOME(r) if wrap else r))
    return res


def drop_fn(ex, st, f):
    """a closure that was not called is dropped with its captures"""
    if isinstance(f, Agg):
        return ex.drop_value(st, f)
    return [st]


def ordering(d):
    return SEnum('Ordering', d, {0: (), 1: (), 2: ()})


def cmp3(a, b):
    return ordering(z3.If(a < b, z3.IntVal(0), z3.If(a == b, z3.IntVal(1), z3.IntVal(2))))


def TR(a, b):
    return Agg('TextRange', [a, b], ['start', 'end'])


def guard_panic(ex, st, cond, msg):
    """continue under cond, report the panic otherwise"""
    if z3.is_true(z3.simplify(B(cond))):
        return [st]
    if ex.feasible(st, Not(cond)):
        s = st.fork()
        s.add(Not(cond))
        ex.panic(s, msg)
    if not ex.feasible(st, cond):
        return []
    st.add(cond)
    return [st]


PANICS = {'panic', 'panic_fmt', 'assert_failed', 'panic_display', 'panic_bounds_check', 'unreachable_display',
          'panic_explicit', 'panic_default_msg', 'begin_panic', 'panic_str_2015', 'panic_cannot_unwind'}


def std(W, ex, st, c, args, fr):
    r = _std(W, ex, st, c, args, fr)
    if r is not None:
        W.trusted.add(norm(c))
    return r


def norm(c):
    if c.trait:
        t = parse_ty(c.self_ty)
        return '<%s as %s>::%s' % (re.sub(r'@[^}]*', '', last_seg(t.name) if t.kind == 'adt' else t.s[:40]), c.trait, c.method)
    return '::'.join(c.path[-2:])


def tyname(c):
    if not c.self_ty:
        return ''
    t = parse_ty(c.self_ty)
    if t.kind == 'adt':
        return last_seg(t.name)
    if t.kind in ('ref', 'ptr'):
        return t.name
    return t.s


def _std(W, ex, st, c, args, fr):
    m = c.method
    tn = tyname(c)
    full = '::'.join(c.path)
    tr = c.trait
    A = args
    one = lambda v: [(st, v)]

    for hook in W.early_hooks:
        r = hook(W, ex, st, c, tn, tr, m, full, A, fr)
        if r is not None:
            return r

    # ---- diverging
    if m in PANICS and ('panicking' in full or full.startswith('std::rt') or 'panic' in full):
        ex.panic(st, m, None)
        return []
    if full in ('std::process::abort',):
        W.trusted.add('abort is not a return')
        return []
    if m == 'unreachable_default_msg':
        ex.panic(st, 'internal error: entered unreachable code', None)
        return []
    if full.startswith('std::fmt::Arguments') or full.startswith('std::fmt::rt') or 'fmt::rt::Argument' in full or 'Arguments' == tn:
        return one(Opq('fmt', ex.sym('fmt')))

    # ---- Cow over a green element
    if full.endswith('Cow::into_owned') and isinstance(A[0], SEnum) and A[0].ty == 'Cow':
        res = []
        for s, i, fs in ex.case(st, A[0]):
            v = fs[0]
            if i == 0:
                if not (isinstance(v, Ptr) and v.base[0] in ('gn', 'gt')):
                    return None
                ty = 'GreenNode' if v.base[0] == 'gn' else 'GreenToken'
                ex.used.add('<%sData as ToOwned>::to_owned' % ty)
                s.bal.append((True, 'green', v.base[1], +1))
                v = Agg(ty, [Ptr(('garc', v.base[1]))], ['ptr'])
            res.append((s, v))
        return res

    # ---- Option
    if tn == 'Option' and not tr:
        o = A[0]
        if m in ('is_some', 'is_none'):
            o = ex.load(st, o)
            return one(o.is_(1) if m == 'is_some' else o.is_(0))
        if m == 'map':
            return opt_map(ex, st, o, A[1])
        if m == 'and_then':
            return opt_map(ex, st, o, A[1], False)
        if m in ('unwrap', 'expect'):
            res = []
            for s, i, fs in ex.case(st, o):
                if i == 1:
                    res.append((s, fs[0]))
                else:
                    ex.panic(s, 'Option::%s on None' % m)
            return res
        if m == 'unwrap_unchecked':
            res = []
            for s, i, fs in ex.case(st, o):
                if i == 1:
                    res.append((s, fs[0]))
                else:
                    ex.panic(s, 'unwrap_unchecked on None (undefined behaviour)')
            return res
        if m == 'unwrap_or':
            res = []
            for s, i, fs in ex.case(st, o):
                if i == 1:
                    for s2 in ex.drop_value(s, A[1]):
                        res.append((s2, fs[0]))
                else:
                    res.append((s, A[1]))
            return res
        if m in ('unwrap_or_else', 'map_or_else', 'map_or', 'or_else', 'or', 'is_some_and', 'is_none_or', 'unwrap_or_default', 'ok_or', 'ok_or_else', 'xor', 'and', 'filter', 'inspect', 'zip', 'get_or_insert_with'):
            res = []
            for s, i, fs in ex.case(st, o):
                if m == 'unwrap_or_else':
                    res += [(s, fs[0])] if i else ex.call_value(s, A[1], [])
                elif m == 'or_else':
                    if i:
                        for s2 in drop_fn(ex, s, A[1]):
                            res.append((s2, SOME(fs[0])))
                    else:
                        res += ex.call_value(s, A[1], [])
                elif m == 'or':
                    if i:
                        for s2 in ex.drop_value(s, A[1]):
                            res.append((s2, SOME(fs[0])))
                    else:
                        res.append((s, A[1]))
                elif m == 'and':
                    if i:
                        for s2 in ex.drop_value(s, fs[0]):
                            res.append((s2, A[1]))
                    else:
                        for s2 in ex.drop_value(s, A[1]):
                            res.append((s2, NONE()))
                elif m == 'is_some_and':
                    res += ex.call_value(s, A[1], [fs[0]]) if i else [(s, z3.BoolVal(False))]
                elif m == 'is_none_or':
                    res += ex.call_value(s, A[1], [fs[0]]) if i else [(s, z3.BoolVal(True))]
                elif m == 'map_or':
                    res += ex.call_value(s, A[2], [fs[0]]) if i else [(s, A[1])]
                elif m == 'map_or_else':
                    res += ex.call_value(s, A[2], [fs[0]]) if i else ex.call_value(s, A[1], [])
                elif m == 'unwrap_or_default':
                    if i:
                        res.append((s, fs[0]))
                    else:
                        d = default_of(parse_ty(c.self_ty).args[0])
                        if d is None:
                            raise Unsupported('default of ' + c.self_ty)
                        res.append((s, d))
                elif m == 'ok_or':
                    res.append((s, SEnum('Result', 0, {0: (fs[0],)}) if i else SEnum('Result', 1, {1: (A[1],)})))
                elif m == 'filter':
                    if not i:
                        res.append((s, NONE()))
                    else:
                        p = ex.alloc(s, fs[0])
                        for s2, b in truth(ex, ex.call_value(s, A[1], [p])):
                            if b:
                                res.append((s2, SOME(fs[0])))
                            else:
                                for s3 in ex.drop_value(s2, fs[0]):
                                    res.append((s3, NONE()))
                elif m == 'inspect':
                    if not i:
                        for s2 in drop_fn(ex, s, A[1]):
                            res.append((s2, NONE()))
                    else:
                        p = ex.alloc(s, fs[0])
                        for s2, _ in ex.call_value(s, A[1], [p]):
                            res.append((s2, SOME(fs[0])))
                else:
                    raise Unsupported('Option::' + m)
            return res
        if m == 'take':
            v = ex.load(st, o)
            ex.store(st, o, NONE())
            return one(v)
        if m == 'replace':
            v = ex.load(st, o)
            ex.store(st, o, SOME(A[1]))
            return one(v)
        if m == 'insert':
            v = ex.load(st, o)
            res = []
            for s in ex.drop_value(st, v):
                ex.store(s, o, SOME(A[1]))
                res.append((s, Ptr(o.base, o.path + (('v', 'Some'), 0))))
            return res
        if m in ('as_ref', 'as_mut', 'as_deref', 'as_deref_mut'):
            v = ex.load(st, o)
            if m.startswith('as_deref'):
                raise Unsupported('as_deref')
            if isinstance(o.base, int):
                d = v.d
                return one(SEnum('Option', d, {0: (), 1: (Ptr(o.base, o.path + (('v', 'Some'), 0)),)}
                                 if not v.conc() else ({0: ()} if d == 0 else {1: (Ptr(o.base, o.path + (('v', 'Some'), 0)),)})))
            raise Unsupported('as_ref')
        if m in ('flatten',):
            res = []
            for s, i, fs in ex.case(st, o):
                res.append((s, fs[0] if i else NONE()))
            return res
        if m in ('copied', 'cloned'):
            res = []
            for s, i, fs in ex.case(st, o):
                if not i:
                    res.append((s, NONE()))
                else:
                    for s2, v in clone_value(ex, s, ex.load(s, fs[0])):
                        res.append((s2, SOME(v)))
            return res
        if m == 'transpose':
            raise Unsupported('transpose')
    if tn == 'Option' and tr == 'Clone':
        return [(s, v) for s, v in clone_value(ex, st, ex.load(st, A[0]))]
    if tn == 'Option' and tr == 'Default':
        return one(NONE())
    if tn in ('Option', 'Result') and tr == 'Try' and m == 'branch':
        res = []
        for s, i, fs in ex.case(st, A[0]):
            if tn == 'Option':
                res.append((s, SEnum('ControlFlow', 0, {0: (fs[0],)}) if i else SEnum('ControlFlow', 1, {1: (NONE(),)})))
            else:
                res.append((s, SEnum('ControlFlow', 0, {0: (fs[0],)}) if i == 0 else
                            SEnum('ControlFlow', 1, {1: (SEnum('Result', 1, {1: fs}),)})))
        return res
    if tn in ('Option', 'Result') and tr == 'FromResidual':
        if tn == 'Option':
            return one(NONE())
        return one(A[0])
    if tn in ('Option', 'Result') and tr == 'Try' and m == 'from_output':
        return one(SOME(A[0]) if tn == 'Option' else SEnum('Result', 0, {0: (A[0],)}))
    if tn == 'Option' and tr in ('PartialEq',):
        return one(ex.deepeq(st, ex.load(st, A[0]), ex.load(st, A[1])) if m == 'eq' else
                   Not(ex.deepeq(st, ex.load(st, A[0]), ex.load(st, A[1]))))
    if tn == 'Result' and not tr:
        if m in ('is_ok', 'is_err'):
            v = ex.load(st, A[0])
            return one(v.is_(0) if m == 'is_ok' else v.is_(1))
        res = []
        for s, i, fs in ex.case(st, A[0]):
            if m in ('unwrap', 'expect'):
                if i == 0:
                    res.append((s, fs[0]))
                else:
                    ex.panic(s, 'Result::%s on Err' % m)
            elif m == 'ok':
                if i == 0:
                    res.append((s, SOME(fs[0])))
                else:
                    for s2 in ex.drop_value(s, fs[0]):
                        res.append((s2, NONE()))
            elif m == 'err':
                res.append((s, SOME(fs[0]) if i else NONE()))
            elif m == 'unwrap_or_else':
                res += [(s, fs[0])] if i == 0 else ex.call_value(s, A[1], [fs[0]])
            elif m == 'map':
                if i == 0:
                    for s2, r in ex.call_value(s, A[1], [fs[0]]):
                        res.append((s2, SEnum('Result', 0, {0: (r,)})))
                else:
                    res.append((s, SEnum('Result', 1, {1: fs})))
            else:
                raise Unsupported('Result::' + m)
        return res

    # ---- functions
    if tr in ('Fn', 'FnMut', 'FnOnce') and m in ('call', 'call_mut', 'call_once'):
        tup = A[1]
        return ex.call_value(st, A[0], list(tup.f))

    # ---- Cell, ManuallyDrop, NonNull, Box, mem
    if tn == 'Cell' and not tr:
        if m == 'new':
            return one(A[0])
        if m == 'get':
            return one(ex.load(st, A[0]))
        if m == 'set':
            ex.store(st, A[0], A[1])
            return one(UNIT)
        if m == 'replace':
            v = ex.load(st, A[0])
            ex.store(st, A[0], A[1])
            return one(v)
        if m == 'take':
            v = ex.load(st, A[0])
            if isinstance(v, SEnum) and v.ty == 'Option':
                ex.store(st, A[0], NONE())
                return one(v)
    if tn == 'NonNull' and not tr:
        if m in ('as_ref', 'as_mut'):
            return one(ex.load(st, A[0]))
        if m in ('as_ptr', 'cast', 'new_unchecked'):
            return one(A[0])
        if m == 'new':
            t = W.rec_of(A[0])
            return one(SEnum('Option', z3.If(t == 0, z3.IntVal(0), z3.IntVal(1)), {0: (), 1: (A[0],)}))
    if tn == 'NonNull' and tr in ('Clone',):
        return one(ex.load(st, A[0]))
    if tn == 'NonNull' and tr == 'From':
        return one(A[0])
    if tn == 'NonNull' and tr == 'PartialEq':
        return one(ex.veq(ex.load(st, A[0]), ex.load(st, A[1])))
    if tn == 'ManuallyDrop':
        if m == 'new':
            return one(Agg('ManuallyDrop', [A[0]]))
        if m == 'into_inner':
            return one(A[0].f[0])
        if tr in ('Deref', 'DerefMut'):
            return one(Ptr(A[0].base, A[0].path + (0,)))
    if full == 'std::mem::forget':
        return one(UNIT)
    if full == 'std::mem::drop':
        return [(s, UNIT) for s in ex.drop_value(st, A[0])]
    if full == 'std::mem::replace':
        v = ex.load(st, A[0])
        ex.store(st, A[0], A[1])
        return one(v)
    if full == 'std::mem::take':
        v = ex.load(st, A[0])
        d = default_of(parse_ty(c.gen[0]))
        if d is None:
            raise Unsupported('mem::take of ' + c.gen[0])
        ex.store(st, A[0], d)
        return one(v)
    if full == 'std::mem::swap':
        a, b = ex.load(st, A[0]), ex.load(st, A[1])
        ex.store(st, A[0], b)
        ex.store(st, A[1], a)
        return one(UNIT)
    if full == 'std::ptr::null' or full == 'std::ptr::null_mut':
        return one(Ptr(('rec', z3.IntVal(0))))
    if m == 'is_null' and 'ptr' in full:
        if isinstance(A[0].base, int):
            return one(z3.BoolVal(False))
        return one(W.rec_of(A[0]) == 0)
    if m == 'as_ref' and 'ptr' in full:
        if isinstance(A[0].base, int):
            return one(SOME(A[0]))
        t = W.rec_of(A[0])
        return one(SEnum('Option', z3.If(t == 0, z3.IntVal(0), z3.IntVal(1)), {0: (), 1: (A[0],)}))
    if full in ('std::ptr::eq', 'std::ptr::addr_eq'):
        return one(ex.veq(A[0], A[1]))
    if tn in ('&', '*const', '*mut') and tr == 'PartialEq' or (tr == 'PartialEq' and c.self_ty.startswith(('&', '*'))):
        a, b = ex.load(st, A[0]), ex.load(st, A[1])
        if c.self_ty.startswith('*'):
            e = ex.veq(a, b)
            return one(e if m == 'eq' else Not(e))
        inner = parse_ty(c.self_ty).args[0].s
        m2 = re.match(r'.*PartialEq<&(.*)>$', c.trait_full or '')
        rhs = m2.group(1) if m2 else inner
        if isinstance(a, Opq) and isinstance(b, Opq):
            e = ex.veq(a, b)
            return one(e if m == 'eq' else Not(e))
        return ex.call(st, '<%s as std::cmp::PartialEq%s>::%s' % (inner, '' if rhs == inner else '<%s>' % rhs, m), [a, b], fr)
    if tr == 'Clone' and m == 'clone' and c.self_ty.startswith('&'):
        return one(ex.load(st, A[0]))

    # ---- conversions
    if tr == 'Into' and m == 'into':
        src = c.self_ty
        dst = re.match(r'.*?Into<(.*)>$', c.trait_full, re.S).group(1)
        if parse_ty(src).s == parse_ty(dst).s:
            return one(A[0])
        return ex.call(st, '<%s as std::convert::From<%s>>::from' % (dst, src), A, fr)
    if tr == 'From' and m == 'from':
        if tn in ('TextSize',) or tn in BITS:
            return one(A[0])
        if tn == 'Option':
            return one(SOME(A[0]))
        if isinstance(A[0], (Agg, SEnum)) and c.self_ty and c.trait_full and re.search(r'From<(.*)>$', c.trait_full, re.S) and \
                re.search(r'From<(.*)>$', c.trait_full, re.S).group(1) == c.self_ty:
            return one(A[0])
    if tr == 'TryInto' or tr == 'TryFrom':
        if tn in BITS or tn in ('TextSize',):
            dst = re.match(r'.*?Into<(.*)>$', c.trait_full, re.S)
            d = dst.group(1) if dst else c.self_ty
            hi = U32 if d.endswith('TextSize') else ex.range_of(d)[1]
            return one(SEnum('Result', z3.If(And(A[0] >= 0, A[0] <= hi), z3.IntVal(0), z3.IntVal(1)),
                             {0: (A[0],), 1: (Opq('TryFromIntError', z3.IntVal(0)),)}))

    # ---- integers
    mm = re.match(r'core::num::<impl (\w+)>::(\w+)$', full)
    if mm:
        ty, op = mm.groups()
        lo, hi = ex.range_of(ty)
        if op in ('checked_add', 'checked_sub', 'checked_mul'):
            r = {'checked_add': lambda: A[0] + A[1], 'checked_sub': lambda: A[0] - A[1], 'checked_mul': lambda: A[0] * A[1]}[op]()
            return one(SEnum('Option', z3.If(And(r >= lo, r <= hi), z3.IntVal(1), z3.IntVal(0)), {0: (), 1: (r,)}))
        if op in ('saturating_sub', 'saturating_add'):
            r = A[0] - A[1] if op.endswith('sub') else A[0] + A[1]
            return one(z3.If(r < lo, z3.IntVal(lo), z3.If(r > hi, z3.IntVal(hi), r)))
        if op in ('wrapping_add', 'wrapping_sub'):
            r = A[0] - A[1] if op.endswith('sub') else A[0] + A[1]
            return one(r % (hi + 1) if lo == 0 else r)
    if tn in BITS and tr in ('PartialOrd', 'Ord', 'PartialEq') and m not in ('min', 'max', 'clamp'):
        a, b = ex.load(st, A[0]), ex.load(st, A[1])
        return cmp_ops(ex, st, m, a, b)
    if full in ('std::cmp::min', 'std::cmp::max') or (tr == 'Ord' and m in ('min', 'max')):
        a, b = A
        if z3.is_int(a):
            return one(z3.If(a <= b, a, b) if (m or full[-3:]) == 'min' else z3.If(a <= b, b, a))
    if tr == 'Default' and (tn in BITS or tn == 'TextSize'):
        return one(z3.IntVal(0))
    if tr == 'Clone' and (tn in BITS or tn in ('bool', 'TextSize', 'TextRange', 'char', 'PhantomData', '&')):
        return one(ex.load(st, A[0]))

    # ---- text-size
    r = textsize(W, ex, st, c, tn, tr, m, A)
    if r is not None:
        return r

    # ---- Ordering
    if tn == 'Ordering' and not tr:
        v = A[0]
        if m in ('is_lt', 'is_le', 'is_gt', 'is_ge', 'is_eq', 'is_ne'):
            d = I(v.d)
            return one({'is_lt': d == 0, 'is_le': d <= 1, 'is_gt': d == 2, 'is_ge': d >= 1, 'is_eq': d == 1, 'is_ne': d != 1}[m])
        if m == 'reverse':
            return one(ordering(2 - I(v.d)))
        if m == 'then':
            return one(ordering(z3.If(I(v.d) == 1, I(A[1].d), I(v.d))))

    # ---- PhantomData / countme
    if tn == 'PhantomData':
        if m == 'eq':
            return one(z3.BoolVal(True))
        if m in ('clone', 'default'):
            return one(Agg('PhantomData', ()))
        if m == 'hash':
            return one(UNIT)
    if tn == 'Count' and m == 'new':
        return one(Agg('Count', ()))

    # ---- tuples
    if tr == 'PartialEq' and c.self_ty.startswith('('):
        e = ex.deepeq(st, ex.load(st, A[0]), ex.load(st, A[1]))
        return one(e if m == 'eq' else Not(e))
    if tr == 'PartialEq' and tn == 'bool':
        e = ex.load(st, A[0]) == ex.load(st, A[1])
        return one(e if m == 'eq' else Not(e))

    # ---- ranges, slices, iterators
    if tr == 'IntoIterator' and m == 'into_iter':
        v = A[0]
        if isinstance(v, (It, Opq)):
            return one(v)
        if isinstance(v, Agg) and v.ty == 'Range':
            lo, hi = v.f
            return one(It('range', lo=lo, hi=z3.If(lo <= hi, hi, lo)))
        if isinstance(v, Agg):
            return one(v)
        if isinstance(v, Ptr) and isinstance(v.base, tuple) and v.base[0] == 'gsl':
            return one(slice_it(v, ex, st))
    if re.match(r'core::slice::<impl \[.*\]>::iter$', full, re.S) and isinstance(A[0], Ptr):
        return one(slice_it(A[0], ex, st))
    if re.match(r'core::slice::<impl \[.*\]>::len$', full, re.S) and isinstance(A[0], Ptr) and A[0].base[0] == 'gsl':
        return one(A[0].base[3] - A[0].base[2])
    if re.match(r'core::slice::<impl \[.*\]>::get$', full, re.S) and isinstance(A[0], Ptr) and A[0].base[0] == 'gsl':
        _, g, lo, hi = A[0].base
        i = A[1]
        import world as w
        st.add(w.cfacts(g, lo + i))
        return one(SEnum('Option', z3.If(And(i >= 0, lo + i < hi), z3.IntVal(1), z3.IntVal(0)), {0: (), 1: (Ptr(('gc', g, lo + i)),)}))
    if re.match(r'core::slice::<impl \[.*\]>::(binary_search_by|binary_search_by_key)$', full, re.S):
        return binary_search(W, ex, st, c, A)
    if full.startswith('std::ops::Range') and m == 'contains':
        r = ex.load(st, A[0])
        x = ex.load(st, A[1])
        return one(And(r.f[0] <= x, x < r.f[1]))
    if full.startswith('std::ops::RangeInclusive') and m == 'new':
        return one(Agg('RangeInclusive', [A[0], A[1]]))
    if full in ('std::iter::successors',):
        return one(It('succ', next=A[0], f=A[1]))
    if full == 'std::iter::once':
        return one(It('once', v=A[0]))
    if full == 'std::iter::empty':
        return one(It('empty'))
    if tr in ('Iterator', 'DoubleEndedIterator', 'ExactSizeIterator'):
        r = iterator(W, ex, st, c, m, A, fr)
        if r is not None:
            return r
    if tr == 'Clone' and m == 'clone':
        v = ex.load(st, A[0])
        if isinstance(v, It):
            return clone_value(ex, st, v)
        if isinstance(v, Agg) and v.ty.startswith('{closure@'):
            return clone_value(ex, st, v)
        if isinstance(v, Opq):
            return one(v)      # T: Clone is assumed to return an equal value
        if isinstance(v, Agg):
            return ex.call(st, '<%s as std::clone::Clone>::clone' % v.ty, A, fr)
    if tr in ('PartialEq',) and isinstance(A[0], Ptr):
        a, b = ex.load(st, A[0]), ex.load(st, A[1])
        if isinstance(a, Opq) and isinstance(b, Opq):
            e = opq_eq(a, b)
            return one(e if m == 'eq' else Not(e))
    if tr in ('PartialOrd', 'Ord') and isinstance(A[0], Ptr):
        a, b = ex.load(st, A[0]), ex.load(st, A[1])
        if isinstance(a, Opq):
            f = z3.Function('ord_' + a.ty, z3.IntSort(), z3.IntSort())
            return cmp_ops(ex, st, m, f(a.t), f(b.t))
    r = more_std(W, ex, st, c, tn, tr, m, full, A, fr)
    return r


def more_std(W, ex, st, c, tn, tr, m, full, A, fr):
    for hook in W.hooks:
        r = hook(W, ex, st, c, tn, tr, m, full, A, fr)
        if r is not None:
            return r
    return None


def opq_eq(a, b):
    return a.t == b.t


def cmp_ops(ex, st, m, a, b):
    one = lambda v: [(st, v)]
    if z3.is_bool(a):
        a, b = z3.If(a, 1, 0), z3.If(b, 1, 0)
    if m in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        return one({'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'eq': a == b, 'ne': a != b}[m])
    if m == 'cmp':
        return one(cmp3(a, b))
    if m == 'partial_cmp':
        return one(SOME(cmp3(a, b)))
    return None


def default_of(t):
    if t.s in BITS or t.s.endswith('TextSize'):
        return z3.IntVal(0)
    if t.s == 'bool':
        return z3.BoolVal(False)
    if t.kind == 'adt' and last_seg(t.name) == 'Option':
        return NONE()
    return None


def empty_slice(ex, st, p):
    """a promoted empty array as a slice"""
    v = ex.load(st, p)
    return isinstance(v, Agg) and v.ty == '[]' and not v.f


def slice_it(p, ex=None, st=None):
    b = p.base
    if isinstance(b, int) and ex is not None and empty_slice(ex, st, p):
        g = ex.sym('empty')
        return It('slice', src=('green', g), lo=z3.IntVal(0), hi=z3.IntVal(0))
    if b[0] == 'gsl':
        return It('slice', src=('green', b[1]), lo=b[2], hi=b[3])
    raise Unsupported('iter over %r' % (p,))


def clone_value(ex, st, v):
    """derived Clone of std containers: clone every component"""
    if isinstance(v, It):
        outs = [(st, {})]
        for k, x in v.d.items():
            nx = []
            for s, d in outs:
                if isinstance(x, (Agg, SEnum, It)) and k != 'src':
                    for s2, y in clone_value(ex, s, x):
                        nx.append((s2, {**d, k: y}))
                else:
                    nx.append((s, {**d, k: x}))
            outs = nx
        return [(s, It(v.k, **d)) for s, d in outs]
    if isinstance(v, SEnum):
        if not any(ex.W.needs_drop(x) for fs in v.vs.values() for x in fs):
            return [(st, v)]
        res = []
        for s, i, fs in ex.case(st, v):
            for s2, ys in clone_list(ex, s, fs):
                res.append((s2, SEnum(v.ty, i, {i: tuple(ys)})))
        return res
    if isinstance(v, Agg):
        if v.ty in ('()',) or v.ty.startswith('{closure@'):
            return [(s, Agg(v.ty, ys, v.names)) for s, ys in clone_list(ex, st, v.f)]
        f = ex.P.bykey.get('<%s as Clone>::clone' % v.ty)
        if f:
            p = ex.alloc(st, v)
            return call_fn(ex, st, f[0], [p])
        if not ex.W.needs_drop(v):
            return [(st, v)]
        raise Unsupported('clone of %s' % v.ty)
    return [(st, v)]


def clone_list(ex, st, fs):
    outs = [(st, [])]
    for x in fs:
        nx = []
        for s, ys in outs:
            for s2, y in clone_value(ex, s, x):
                nx.append((s2, ys + [y]))
        outs = nx
    return outs


# ---------------------------------------------------------------- iterators
def iterator(W, ex, st, c, m, A, fr):
    one = lambda v: [(st, v)]
    recv = A[0]
    byref = isinstance(recv, Ptr)
    it = ex.load(st, recv) if byref else recv
    depth = 0
    if byref:
        while isinstance(it, Ptr):      # <&mut I as Iterator>
            recv = it
            it = ex.load(st, recv)
    if not byref and m in ('enumerate', 'skip', 'rev', 'map', 'filter', 'filter_map', 'inspect', 'take', 'take_while', 'step_by', 'peekable', 'fuse', 'by_ref', 'cloned', 'copied'):
        if m == 'enumerate':
            w = view(ex, st, it)
            return one(It('enum', inner=it, base=w.lo))
        if m == 'skip':
            return one(It('skip', inner=it, n=A[1]))
        if m == 'rev':
            return one(It('rev', inner=it))
        if m in ('map', 'filter', 'filter_map', 'inspect'):
            return one(It(m, inner=it, f=A[1]))
        raise Unsupported('Iterator::' + m)
    if isinstance(it, Agg) and it.ty != 'Children' and m != 'next':
        pass

    def back_to(s, ni):
        if byref:
            ex.store(s, recv, ni)
            return [s]
        return ex.drop_value(s, ni)

    if m in ('next', 'next_back'):
        res = []
        for s, ni, o in it_next(ex, st, it, m == 'next_back'):
            ex.store(s, recv, ni)
            res.append((s, o))
        return res
    if m in ('find_map', 'find', 'any', 'all', 'position'):
        cell = ex.alloc(st, A[1])

        def body(s, x):
            out = []
            f = cell
            if m == 'find_map':
                for s2, r in ex.call_value(s, f, [x]):
                    for s3, i, fs in ex.case(s2, r):
                        out.append((s3, i == 1, fs[0] if i else None))
            elif m == 'find':
                p = ex.alloc(s, x)
                for s2, b in truth(ex, ex.call_value(s, f, [p])):
                    if b:
                        out.append((s2, True, x))
                    else:
                        for s3 in ex.drop_value(s2, x):
                            out.append((s3, False, None))
            elif m in ('any', 'all'):
                for s2, b in truth(ex, ex.call_value(s, f, [x])):
                    out.append((s2, b == (m == 'any'), b))
            return out
        if m == 'position':
            raise Unsupported('position')
        res = []
        for s, ni, p in run_search(ex, st, it, body, m):
            for s2 in back_to(s, ni):
                for s3 in drop_fn(ex, s2, A[1]):
                    if m in ('find_map', 'find'):
                        res.append((s3, NONE() if p is None else SOME(p)))
                    else:
                        stop = p is not None
                        res.append((s3, z3.BoolVal(stop if m == 'any' else not stop)))
        return res
    if m in ('nth', 'nth_back') and random_access(it):
        w = view(ex, st, it)
        fwd = w.fwd != (m == 'nth_back')
        n = A[1]
        res = []
        for s, i in ex.branch(st, [n < w.hi - w.lo, n >= w.hi - w.lo]):
            if i == 0:
                k = w.lo + n if fwd else w.hi - 1 - n
                ex.store(s, recv, w.rebuild(k + 1, w.hi) if fwd else w.rebuild(w.lo, k))
                res.append((s, SOME(w.at(s, k))))
            else:
                ex.store(s, recv, w.rebuild(w.hi, w.hi) if fwd else w.rebuild(w.lo, w.lo))
                res.append((s, NONE()))
        return res
    if m == 'last' and random_access(it):
        w = view(ex, st, it)
        res = []
        for s, i in ex.branch(st, [w.lo < w.hi, w.lo >= w.hi]):
            res.append((s, SOME(w.at(s, w.hi - 1 if w.fwd else w.lo)) if i == 0 else NONE()))
        return res
    if m in ('len', 'count') and random_access(it):
        w = view(ex, st, it)
        return one(w.hi - w.lo)
    if m == 'size_hint' and random_access(it):
        w = view(ex, st, it)
        return one(Agg('()', [w.hi - w.lo, SOME(w.hi - w.lo)]))
    return None


MONO = [None]


def binary_search(W, ex, st, c, A):
    """slice::binary_search_by with a total, monotone comparator.  The result
    contract (found: compares Equal; not found: everything before Less,
    everything after Greater) needs sortedness, which is an obligation."""
    p, f = A[0], A[-1]
    b = p.base
    if b[0] != 'gsl':
        raise Unsupported('binary search over %r' % (p,))
    g, lo, hi = b[1], b[2], b[3]
    m = ex.sym('m')
    start = ex.ctr
    s0 = st.fork()
    s0.add(lo <= m, m < hi)
    item = src_item(ex, s0, ('green', g), m)
    base = len(s0.pc)
    outs = ex.call_value(s0.fork(), f, [item])
    # ordering term at m
    terms = []
    for s, o in outs:
        terms.append((And(True, *s.pc[base:]), I(o.d)))
    d = terms[-1][1]
    for cnd, t in terms[:-1]:
        d = z3.If(cnd, t, d)
    facts = [B(x) for x in s0.pc[len(st.pc) + 2:base]]
    if [x for x in new_syms(ex, start, [d] + facts) if not x.eq(m)]:
        raise Unsupported('binary search comparator with fresh symbols')
    ord_at = lambda k: z3.substitute(d, (m, k))
    fact_at = lambda k: z3.substitute(And(True, *facts), (m, k))
    # obligation: the comparator is monotone (Less* Equal* Greater*)
    a, bb = ex.sym('a'), ex.sym('b')
    sa = st.fork()
    sa.add(lo <= a, a < bb, bb < hi, fact_at(a), fact_at(bb))
    if MONO[0] is not None:
        sa.add(MONO[0](g))
        ex.used.add('lemma:mono')
    ex.oblige(sa, '%s: slice is sorted for the binary search' % ex.cur, ord_at(a) <= ord_at(bb), 'pre')
    r = ex.sym('pos')
    k = z3.Int('k!%d' % ex.ctr)
    ex.ctr += 1
    res = []
    s = st.fork()
    s.add(lo <= r, r < hi, ord_at(r) == 1, fact_at(r))
    if ex.feasible(s):
        res.append((s, SEnum('Result', 0, {0: (r - lo,)})))
    s = st.fork()
    s.add(lo <= r, r <= hi)
    s.add(z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < r), z3.And(ord_at(k) == 0, fact_at(k)))),
          z3.ForAll([k], z3.Implies(z3.And(r <= k, k < hi), z3.And(ord_at(k) == 2, fact_at(k)))),
          Implies(lo < r, And(ord_at(r - 1) == 0, fact_at(r - 1))), Implies(r < hi, And(ord_at(r) == 2, fact_at(r))))
    if ex.feasible(s):
        res.append((s, SEnum('Result', 1, {1: (r - lo,)})))
    return res


# ---------------------------------------------------------------- text-size
def textsize(W, ex, st, c, tn, tr, m, A):
    one = lambda v: [(st, v)]
    if tn in ('TextSize', 'u32') and tr in ('Add', 'Sub') and z3.is_int(A[0]) and z3.is_int(A[1]):
        r = A[0] + A[1] if tr == 'Add' else A[0] - A[1]
        return [(s, r) for s in guard_panic(ex, st, And(r >= 0, r <= U32), 'TextSize %s overflow' % tr)]
    if tn == 'TextSize' and tr in ('AddAssign', 'SubAssign'):
        v = ex.load(st, A[0])
        x = A[1] if z3.is_expr(A[1]) else ex.load(st, A[1])
        r = v + x if tr == 'AddAssign' else v - x
        res = []
        for s in guard_panic(ex, st, And(r >= 0, r <= U32), 'TextSize %s overflow' % tr):
            ex.store(s, A[0], r)
            res.append((s, UNIT))
        return res
    if tn == 'TextSize' and tr in ('PartialOrd', 'Ord', 'PartialEq'):
        return cmp_ops(ex, st, m, ex.load(st, A[0]), ex.load(st, A[1]))
    if m in ('len', 'is_empty') and '::'.join(c.path).startswith('core::str::') and isinstance(A[0], Opq) and A[0].ty in ('&str', 'str'):
        n = W.strlen(st, A[0])
        st.add(n >= 0)
        return one(n if m == 'len' else n == 0)
    if m == 'as_bytes' and '::'.join(c.path).startswith('core::str::') and isinstance(A[0], Opq) and A[0].ty in ('&str', 'str'):
        return one(Opq('&[u8]', A[0].t))
    if m in ('from', 'into') and tr in ('From', 'Into') and A and z3.is_expr(A[0]) and z3.is_int(A[0]):
        if re.search(r'\b(TextSize|u8|u16|u32|u64|usize)\b', c.self_ty) and re.search(r'<(\w+::)*(TextSize|u8|u16|u32|u64|usize|char)>', c.trait_full):
            return one(A[0])
    if tn == 'TextSize' and not tr:
        if m in ('new', 'from', 'to_u32', 'to_usize'):
            return one(A[0])
        if m == 'of':
            return one(W.strlen(st, A[0]))
        if m in ('checked_add', 'checked_sub'):
            r = A[0] + A[1] if m == 'checked_add' else A[0] - A[1]
            return one(SEnum('Option', z3.If(And(r >= 0, r <= U32), z3.IntVal(1), z3.IntVal(0)), {0: (), 1: (r,)}))
    if tn == 'TextRange':
        if not tr:
            r = A[0] if isinstance(A[0], Agg) else None
            if m in ('start', 'end', 'len', 'is_empty') and r:
                s, e = r.f
                return one({'start': s, 'end': e, 'len': e - s, 'is_empty': s == e}[m])
            if m == 'new':
                return [(s, TR(A[0], A[1])) for s in guard_panic(ex, st, A[0] <= A[1], 'TextRange::new: start > end')]
            if m == 'at':
                e = A[0] + A[1]
                return [(s, TR(A[0], e)) for s in guard_panic(ex, st, e <= U32, 'TextRange::at overflow')]
            if m == 'up_to':
                return one(TR(z3.IntVal(0), A[0]))
            if m == 'empty':
                return one(TR(A[0], A[0]))
            if m == 'contains':
                return one(And(r.f[0] <= A[1], A[1] < r.f[1]))
            if m == 'contains_inclusive':
                return one(And(r.f[0] <= A[1], A[1] <= r.f[1]))
            if m == 'contains_range':
                o = A[1]
                return one(And(r.f[0] <= o.f[0], o.f[1] <= r.f[1]))
            if m == 'intersect':
                o = A[1]
                a = z3.If(r.f[0] >= o.f[0], r.f[0], o.f[0])
                b = z3.If(r.f[1] <= o.f[1], r.f[1], o.f[1])
                return one(SEnum('Option', z3.If(b < a, z3.IntVal(0), z3.IntVal(1)), {0: (), 1: (TR(a, b),)}))
            if m == 'cover':
                o = A[1]
                return one(TR(z3.If(r.f[0] <= o.f[0], r.f[0], o.f[0]), z3.If(r.f[1] >= o.f[1], r.f[1], o.f[1])))
            if m == 'ordering':
                o = A[1]
                return one(ordering(z3.If(r.f[1] <= o.f[0], z3.IntVal(0), z3.If(o.f[1] <= r.f[0], z3.IntVal(2), z3.IntVal(1)))))
        if tr == 'PartialEq':
            e = ex.veq(ex.load(st, A[0]), ex.load(st, A[1]))
            return one(e if m == 'eq' else Not(e))
        if tr in ('Add', 'Sub') and isinstance(A[0], Agg):
            s, e = A[0].f
            d = A[1]
            a, b = (s + d, e + d) if tr == 'Add' else (s - d, e - d)
            return [(s2, TR(a, b)) for s2 in guard_panic(ex, st, And(a >= 0, b <= U32), 'TextRange %s offset overflowed' % tr)]
    if tn == 'TextSize' and tr == 'Hash':
        return None
    return None


# ---------------------------------------------------------------- opaque functions
def call_opaque(W, ex, st, f, args):
    """a caller-supplied function: an uninterpreted function of its (scalar) arguments"""
    ct = ex.C.get(ex.cur)
    if isinstance(f, Opq) and hasattr(ct, 'on_call'):
        return ct.on_call(ex, st, f, args)
    if isinstance(f, Opq):
        terms = []
        for a in args:
            terms += scalars(ex, st, a)
        ret = W.opaque_ret(f, args)
        fn = z3.Function('app_%d' % len(terms), *([z3.IntSort()] * (len(terms) + 1)), z3.BoolSort() if ret == 'bool' else z3.IntSort())
        if ret == 'bool':
            fn = z3.Function('appb_%d' % len(terms), *([z3.IntSort()] * (len(terms) + 1)), z3.BoolSort())
            return [(st, fn(f.t, *terms))]
        fn = z3.Function('app_%d' % len(terms), *([z3.IntSort()] * (len(terms) + 2)))
        return [(st, Opq('ret', fn(f.t, *terms)))]
    return None


def scalars(ex, st, v):
    if isinstance(v, Agg):
        if v.ty in ex.W.HANDLES:
            return [ex.W.rec_of(v)]
        out = []
        for x in v.f:
            out += scalars(ex, st, x)
        return out
    if isinstance(v, Opq):
        return [v.t]
    if z3.is_int(v):
        return [v]
    if z3.is_bool(v):
        return [z3.If(v, 1, 0)]
    if isinstance(v, Ptr):
        if isinstance(v.base, int):
            return scalars(ex, st, ex.load(st, v))
        return [x for x in v.base[1:] if z3.is_expr(x)]
    if isinstance(v, SEnum):
        if v.ty == 'NodeOrToken' and all(isinstance(f[0], Ptr) and isinstance(f[0].base, tuple) and f[0].base[0] in ('gn', 'gt') for f in v.vs.values()):
            ts = [f[0].base[1] for _, f in sorted(v.vs.items())]
            return [ts[0] if len(ts) == 1 else z3.If(v.is_(0), ts[0], ts[1])]
        if v.conc():
            out = [z3.IntVal(v.d)]
            for x in v.vs[v.d]:
                out += scalars(ex, st, x)
            return out
        raise Unsupported('enum argument to an opaque function')
    raise Unsupported('argument to an opaque function: %r' % (v,))


# ---------------------------------------------------------------- crate-level trusted representation
def resolve(W, ex, st, c, args, fr):
    """dynamic dispatch on a generic receiver"""
    if c.trait == 'PartialEq' and c.self_ty.startswith('&') and re.sub(r"^&('\w+ )?", '', c.self_ty) != 'str':
        return None
    if c.trait and args:
        v = args[0]
        if isinstance(v, Ptr):
            if isinstance(v.base, tuple) and v.base[0] == 'rec' and not v.path:
                k = '<NodeData as %s>::%s' % (c.trait, c.method)
                fs = ex.P.bykey.get(k)
                if fs:
                    return fs[0]
            if c.trait in ('Display', 'Debug'):
                while isinstance(v, Ptr) and isinstance(v.base, int):
                    v = ex.load(st, v)
                if isinstance(v, Ptr) and isinstance(v.base, tuple) and v.base[0] in ('gn', 'gt') and not v.path:
                    fs = ex.P.bykey.get('<%s as %s>::%s' % ('GreenNodeData' if v.base[0] == 'gn' else 'GreenTokenData', c.trait, c.method))
                    if fs:
                        return fs[0]
            try:
                v = ex.load(st, v) if isinstance(v, Ptr) else v
            except Unsupported:
                v = None
            while isinstance(v, Ptr) and isinstance(v.base, int):
                v = ex.load(st, v)
        if isinstance(v, (Agg, SEnum)):
            for nm in (v.ty, v.ty.split('::')[-1]):
                for k in ('<%s as %s>::%s' % (nm, c.trait, c.method), '<%s as %s>::%s' % (nm, W.P.trait(c.trait_full), c.method)):
                    fs = ex.P.bykey.get(k)
                    if fs and (isinstance(v, Agg) and v.ty not in ('()',) or isinstance(v, SEnum) and v.ty in ex.D.enums):
                        if len(fs) == 1:
                            return fs[0]
    return None


def crate_model(W, ex, st, f, c, args):
    """representation of green values (ThinArc header + slice): trusted here, see arc layer"""
    k = f.key
    one = lambda v: [(st, v)]
    g = None
    if args and isinstance(args[0], Ptr):
        p = args[0]
        if isinstance(p.base, int) and k in GREEN_DEREF:
            v = ex.load(st, p)
            if isinstance(v, Agg) and v.ty in ('GreenNode', 'GreenToken'):
                g = v.f[0].base[1]
    if k in GREEN_DEREF:
        if g is None and isinstance(args[0], Ptr) and isinstance(args[0].base, tuple) and args[0].base[0] == 'gc':
            v = ex.load(st, args[0])
            g = v.f[0].base[1]
        if g is not None:
            ex.used.add(k)
            return one(Ptr(('gn' if 'GreenNode' in k else 'gt', g)))
    if k in ('GreenNode::into_raw', 'GreenToken::into_raw'):
        ex.used.add(k)
        return one(Ptr(('gn' if 'Node' in k else 'gt', args[0].f[0].base[1])))
    if k in ('GreenNode::from_raw', 'GreenToken::from_raw'):
        ex.used.add(k)
        return one(Agg(k.split('::')[0], [Ptr(('garc', args[0].base[1]))], ['ptr']))
    if k in ('<GreenNode as Clone>::clone', '<GreenToken as Clone>::clone'):
        v = ex.load(st, args[0])
        ex.used.add(k)
        st.bal.append((True, 'green', v.f[0].base[1], +1))
        return one(v)
    if k in ('<GreenNodeData as ToOwned>::to_owned', '<GreenTokenData as ToOwned>::to_owned'):
        ex.used.add(k)
        b = args[0].base
        st.bal.append((True, 'green', b[1], +1))
        return one(Agg('GreenNode' if b[0] == 'gn' else 'GreenToken', [Ptr(('garc', b[1]))], ['ptr']))
    if k == 'GreenNodeData::slice':
        ex.used.add(k)
        b = args[0].base
        import world as w
        st.add(w.gfacts(b[1]))
        return one(Ptr(('gsl', b[1], z3.IntVal(0), w.gn(b[1]))))
    if k == '<HeaderSlice as Deref>::deref' and isinstance(args[0], Ptr) and isinstance(args[0].base, tuple):
        ex.used.add(k)
        return one(args[0])
    if k == 'GreenTokenData::text':
        ex.used.add(k)
        import world as w
        b = args[0].base
        st.add(w.strlen(w.gtext(b[1])) == w.glen(b[1]))
        return one(Opq('&str', w.gtext(b[1])))
    return None


GREEN_DEREF = {'<GreenNode as Deref>::deref', '<GreenToken as Deref>::deref'}

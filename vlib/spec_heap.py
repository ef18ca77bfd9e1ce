"""P11/P12/P13/P16: the heap of red records (src/sll.rs and the record functions of src/cursor.rs).

The navigation layer (world.World) sees records through their invariant.  Here that
invariant is established: records are cells of arrays (one per field of NodeData) plus ghost
arrays, every access to a field obliges the record to be live, and the functions that write
records are verified against the heap invariant HInv:

  live t        the record is allocated
  kc t          number of live records whose parent field is t (a cardinality: updated exactly
                where live/parent change; the only fact assumed of it is that a live record with
                parent t makes kc t >= 1)
  rc t - kc t   number of handles to t that are held outside the heap
  L t           the list owner: the record in whose `first` list t is linked, 0 if in none
  own t         the record owns a reference to its green element
  rk, rt        a rank that grows from parent to child; the root of the tree
"""
import re
import z3
from core import *
from exec import *
from exec import I, B, And, Or, Implies, Not
import world as W
import models
from world import ch, rel, isnode, gn, kind, glen, gfacts, cfacts, rp
from mir import *

Int, Bool = z3.IntSort(), z3.BoolSort()
GHOST = {'L': Int, 'Q': Int, 'kc': Int, 'own': Bool, 'rk': Int, 'rt': Int, 'S': Int, 'X': Bool}
SORT = dict(W.ARR, **GHOST)
sel = W.sel
_n = [0]
_removed = z3.Function('removed', Int, Int, Int, Bool)   # removed(r, g, i): r is g without the child at i
_inserted = z3.Function('inserted', Int, Int, Int, Int, Bool)    # inserted(r, g, i, x): r is g with x inserted at i


def removed(r, g, i):
    return And(_removed(r, g, i), isnode(r), kind(r) == kind(g), gn(r) == gn(g) - 1)


def inserted(r, g, i, x):
    return And(_inserted(r, g, i, x), isnode(r), kind(r) == kind(g), gn(r) == gn(g) + 1)


gok = z3.Function('green_well_formed', Int, Bool)       # gfacts, opaque in quantified facts
# edited(r, g, i, x): r is a node of the kind of g with the children of g, the one at i replaced by x
_edited = z3.Function('edited', Int, Int, Int, Int, Bool)


def edited(r, g, i, x):
    return And(_edited(r, g, i, x), isnode(r), kind(r) == kind(g), gn(r) == gn(g))




def qv(n=1):
    _n[0] += 1
    return z3.Ints(' '.join('%s~%d' % (c, _n[0]) for c in 'tcuv'[:n]))


def root(a):
    """the array under the writes"""
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        a = a.arg(0)
    return a


def fa(vs, body, *pats):
    """pats: (array, index) or lists of them (multi-patterns); patterns are over the arrays under the writes"""
    ps, seen = [], set()
    for p in pats:
        ts = [sel(root(a), i) for a, i in (p if isinstance(p, list) else [p])]
        k = str(ts)
        if k not in seen:
            seen.add(k)
            ps.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
    return z3.ForAll(vs, body, patterns=ps)


# ------------------------------------------------------------------ the invariants
def list_inv(H, key):
    K, L, nx, pv, fi, live = H[key], H['L'], H['next'], H['prev'], H['first'], H['live']
    t, = qv()
    a, c = qv(2)
    F = lambda u: sel(fi, sel(L, u))
    return [
        ('no list at the null record', sel(L, 0) == 0),
        ('linked records are live, their list has a head',
         fa([t], Implies(sel(L, t) != 0, And(sel(live, t), sel(live, sel(L, t)), F(t) != 0, sel(L, F(t)) == sel(L, t),
                                             sel(K, F(t)) <= sel(K, t))), (L, t))),
        ('the head of a list is linked in it', fa([t], Implies(And(t != 0, sel(live, t), sel(fi, t) != 0), sel(L, sel(fi, t)) == t), (fi, t))),
        ('next stays in the list, prev inverts it, keys grow up to the wrap at the head',
         fa([t], Implies(sel(L, t) != 0, And(sel(L, sel(nx, t)) == sel(L, t), sel(pv, sel(nx, t)) == t,
                                             Or(sel(nx, t) == F(t), sel(K, sel(nx, t)) > sel(K, t)))), (nx, t))),
        ('prev stays in the list, next inverts it',
         fa([t], Implies(sel(L, t) != 0, And(sel(L, sel(pv, t)) == sel(L, t), sel(nx, sel(pv, t)) == t)), (pv, t))),
        ('no element lies between two neighbours',
         fa([a, c], Implies(And(sel(L, a) != 0, sel(L, a) == sel(L, c)),
                            Or(sel(K, c) <= sel(K, a), And(sel(nx, a) != F(a), sel(K, c) >= sel(K, sel(nx, a))))),
            [(nx, a), (L, c)])),
        ('keys are unique in a list',
         fa([a, c], Implies(And(sel(L, a) != 0, sel(L, a) == sel(L, c), sel(K, a) == sel(K, c)), a == c), [(L, a), (L, c)])),
    ]


def stored(H, t):
    """the offset field is the position: 0 for a root, else the parent's plus that of the child in it"""
    P = sel(H['P'], t)
    return z3.If(P == 0, And(sel(H['O'], t) == 0, sel(H['I'], t) == 0),
                 sel(H['O'], t) == sel(H['O'], P) + rel(sel(H['G'], P), sel(H['I'], t)))


def heap_inv(H, exc=None, cur=None):
    """exc: a record whose count may be zero; cur=(n, g): the children of n are those of g, not (yet) of its green element"""
    t, = qv()
    s = lambda f, u: sel(H[f], u)
    P = s('P', t)
    alive = s('live', t)

    def below(g, t):
        return And(isnode(g), s('I', t) < gn(g), s('G', t) == ch(g, s('I', t)))

    def at(P, t):
        return below(s('G', P), t) if cur is None else z3.If(P == cur[0], below(cur[1], t), below(s('G', P), t))
    return [
        ('only non-null records are live', fa([t], Implies(alive, t > 0), (H['live'], t))),
        ('a live record is referenced, counts cover the children',
         fa([t], Implies(alive, And(Or(s('rc', t) >= 1, B(False) if exc is None else t == exc), s('kc', t) >= 0, s('rc', t) >= s('kc', t))), (H['rc'], t), (H['kc'], t))),
        ('a live record\'s parent is live and its green child at the index is the record\'s green element',
         fa([t], Implies(alive, And(P >= 0, s('own', t) == (P == 0), Implies(P == 0, s('rt', t) == t),
                                    Implies(P != 0, And(s('live', P), s('M', P) == s('M', t), s('I', t) >= 0, at(P, t),
                                                        s('rk', P) < s('rk', t), s('rt', t) == s('rt', P))))), (H['P'], t))),
        ('ranks are not negative', fa([t], Implies(alive, s('rk', t) >= 0), (H['rk'], t))),
        ('a live record\'s green element is well formed', fa([t], Implies(alive, gok(s('G', t))), (H['G'], t))),
        ('a live mutable record is linked in its parent\'s list, an immutable one in none',
         fa([t], Implies(alive, s('L', t) == z3.If(s('M', t), P, I(0))), (H['L'], t))),
        ('a live immutable record stores its position', fa([t], Implies(And(alive, Not(s('M', t))), stored(H, t)), (H['O'], t))),
        ('a live record\'s index fits', fa([t], Implies(alive, And(s('I', t) >= 0, s('I', t) < U32)), (H['I'], t))),
    ] + [('sibling list: ' + n, g) for n, g in list_inv(H, 'I')]


def card(H):
    """definition of kc (one direction)"""
    t, = qv()
    return fa([t], Implies(And(sel(H['live'], t), sel(H['P'], t) != 0), sel(H['kc'], sel(H['P'], t)) >= 1), (H['P'], t))


def ext(H, t):
    return sel(H['rc'], t) - sel(H['kc'], t)


def same_on(H0, H1, fields, cond):
    """fields unchanged on the records that satisfy cond"""
    out = []
    for f in fields:
        t, = qv()
        out.append(('%s unchanged' % f, fa([t], Implies(cond(t), sel(H1[f], t) == sel(H0[f], t)), (H1[f], t))))
    return out


def havoc(ex, st, *fields):
    for f in fields:
        ex.ctr += 1
        st.H[f] = z3.Array('H_%s!%d' % (f, ex.ctr), Int, SORT[f])


# ------------------------------------------------------------------ the world
class HeapWorld(W.World):
    ARRX = GHOST
    uf = True
    GREEN = ('GreenNodeData::replace_child', 'GreenNodeData::insert_child', 'GreenNodeData::remove_child')

    def contract(self, ex, f):
        k = 'heap:' + f.key
        if k in ex.C and (k != ex.cur or getattr(ex.C[k], 'recursive', False)):
            return ex.C[k]
        if f.key in self.GREEN:
            return ex.C.get(f.key)
        return None

    # -------------------------------------------- locals and liveness
    def access(self, ex, st, t, what):
        loc = st.gh.get('local', ())
        g = Or(sel(st.H['live'], t), *[t == l for l in loc])
        if any(t is l or t.eq(l) for l in loc):
            return
        key = ('access', str(t), st.H['live'].get_id())
        if key in st.known:
            return
        st.known = st.known | {key}
        ex.oblige(st, '%s: the record is live when its field `%s` is accessed' % (ex.cur, what), g, 'mem')
        st.add(g)

    def load(self, ex, st, ptr):
        if isinstance(ptr.base, tuple) and ptr.base[0] == 'rec' and ptr.path:
            self.access(ex, st, ptr.base[1], ptr.path[0])
            if ptr.path[0] == 'green':
                g = W.h(st, 'G', ptr.base[1])
                st.add(gok(g) == gfacts(g))         # definition of gok at this element
        return super().load(ex, st, ptr)

    def store(self, ex, st, ptr, val):
        b = ptr.base
        if isinstance(b, tuple) and b[0] == 'rec':
            t, f = b[1], ptr.path[0]
            self.access(ex, st, t, f)
            live = sel(st.H['live'], t)
            if f == 'parent':
                old = sel(st.H['P'], t)
                st.add(Implies(And(live, old != 0), sel(st.H['kc'], old) >= 1))     # card at t
                super().store(ex, st, ptr, val)
                new = sel(z3.simplify(st.H['P']), t)
                self.kids(st, old, -1, live)
                self.kids(st, z3.simplify(new), +1, live)
                st.add(card(st.H))
                self.reparent(ex, st, t, old, z3.simplify(new), live)
                return
            if f == 'green':
                own = And(sel(st.H['own'], t), live)
                st.bal.append((own, 'green', sel(st.H['G'], t), +1))
                super().store(ex, st, ptr, val)
                st.bal.append((own, 'green', val.base[1], -1))
                return
        super().store(ex, st, ptr, val)

    def reparent(self, ex, st, t, old, new, live):
        """ghost state of a changed parent field: a root owns its green element; roots and ranks of the subtree"""
        H = st.H
        g = sel(H['G'], t)
        was, now = sel(H['own'], t), new == 0
        st.bal.append((And(live, was, Not(now)), 'green', g, +1))
        st.bal.append((And(live, now, Not(was)), 'green', g, -1))
        H['own'] = z3.Store(H['own'], t, z3.If(live, now, was))
        rt, rk = H['rt'], H['rk']
        u, = qv()
        if z3.is_int_value(new) and new.as_long() == 0:
            # cut off: the records below t now have root t (the root is a function of the parents, which are acyclic)
            havoc(ex, st, 'rt')
            n = H['rt']
            lv, P, X = H['live'], H['P'], H['X']
            st.add(fa([u], And(Or(sel(n, u) == sel(rt, u), And(sel(n, u) == t, sel(rt, u) == sel(rt, t))),
                               Implies(sel(lv, u), sel(n, u) == z3.If(sel(P, u) == 0, u, sel(n, sel(P, u)))),
                               # without children only t itself is below t
                               Implies(And(sel(H['kc'], t) == 0, u != t), sel(n, u) == sel(rt, u))), (n, u)))
            if st.gh.get('X'):
                # a set of records closed under parents and without t is not affected
                st.add(fa([u], Implies(And(sel(X, u), Not(sel(X, t))), sel(n, u) == sel(rt, u)), (n, u)))
        else:
            # t was a root: its tree is now below the new parent
            ex.oblige(st, '%s: a record becomes a child only of a record in another tree' % ex.cur,
                      Implies(live, And(old == 0, sel(rt, t) == t, sel(rt, new) != t)), 'mem')
            havoc(ex, st, 'rt', 'rk')
            st.add(fa([u], sel(H['rt'], u) == z3.If(And(live, sel(rt, u) == t), sel(rt, new), sel(rt, u)), (H['rt'], u)),
                   fa([u], sel(H['rk'], u) == z3.If(And(live, sel(rt, u) == t), sel(rk, u) + sel(rk, new) + 1, sel(rk, u)), (H['rk'], u)))

    def kids(self, st, p, d, guard):
        a = st.H['kc']
        g = And(guard, p != 0)
        g = z3.simplify(B(g))
        if z3.is_false(g):
            return
        st.H['kc'] = z3.Store(a, p, sel(a, p) + z3.If(g, I(d), I(0)))

    # outside references to records are accounted for by ext in the contracts, not by events
    def handles(self, v, guard=True):
        return [x for x in super().handles(v, guard) if x[1] != 'red']

    def needs_drop(self, v):
        return bool(super().handles(v)) or self.boxed(v)

    def boxed(self, v):
        if isinstance(v, Agg):
            return v.ty == 'Box*' or v.ty != 'ManuallyDrop' and any(self.boxed(x) for x in v.f)
        if isinstance(v, SEnum):
            return any(self.boxed(x) for fs in v.vs.values() for x in fs)
        return False

    def rc_effect(self, ex, ct, cx, evs):
        pass

    def contract_balance(self, ex, ct, cx):
        super().contract_balance(ex, ct, cx)
        if ct.key in self.GREEN:
            from spec_green import owned_id
            r = cx.ret.f[0].base[1]
            cx.st.add(gok(r) == gfacts(r), gfacts(r))       # the green element returned is well formed
            if ct.key.endswith('replace_child'):
                cx.st.add(_edited(r, cx.a[0].base[1], cx.a[1], owned_id(cx.a[2])))
            if ct.key.endswith('remove_child'):
                cx.st.add(_removed(r, cx.a[0].base[1], cx.a[1]))
            if ct.key.endswith('insert_child'):
                cx.st.add(_inserted(r, cx.a[0].base[1], cx.a[1], owned_id(cx.a[2])))

    def drop_handle(self, ex, st, v):
        ct = ex.C['heap:<%s as Drop>::drop' % v.ty]
        f = ex.P.bykey['<%s as Drop>::drop' % v.ty][0]
        ex.P.prepare(f)
        return [s for s, _ in ex.apply_contract(st, ct, f, [ex.alloc(st, v)])]

    def drop(self, ex, st, v):
        if isinstance(v, Agg) and v.ty == 'Box*':
            t = self.rec_of(v.f[0])
            ex.oblige(st, '%s: a record is freed once' % ex.cur, sel(st.H['live'], t), 'mem')
            ex.oblige(st, '%s: the record freed has no reference and no child' % ex.cur,
                      And(sel(st.H['rc'], t) == 0, sel(st.H['kc'], t) == 0), 'mem')
            ex.oblige(st, '%s: the record freed is in no list and heads none' % ex.cur,
                      And(sel(st.H['L'], t) == 0, sel(st.H['first'], t) == 0), 'mem')
            st.bal.append((sel(st.H['own'], t), 'green', sel(st.H['G'], t), +1))
            st.H['live'] = z3.Store(st.H['live'], t, False)
            self.kids(st, sel(st.H['P'], t), -1, True)
            st.add(card(st.H))
            return [st]
        if isinstance(v, Agg) and v.ty == 'NodeData*':
            return [st]
        return super().drop(ex, st, v)

    def refof(self, ex, st, p):
        if isinstance(p.base, int):
            try:
                v = ex.load(st, p)
            except Unsupported:
                return p
            if isinstance(v, Agg) and v.ty in ('NodeData*', 'Box*'):
                return v.f[0]
        return super().refof(ex, st, p)

    def field(self, ex, st, cur, n, ty):
        if isinstance(cur.base, int) and not cur.path:
            v = st.mem.get(cur.base)
            if isinstance(v, Agg) and v.ty == 'NodeData*':
                return super().field(ex, st, v.f[0], n, ty)
        return super().field(ex, st, cur, n, ty)

    def deref(self, ex, st, v):
        if isinstance(v, Agg) and v.ty == 'Box*':
            return v.f[0]
        return super().deref(ex, st, v)

    def cast(self, ex, st, v, ty, kind):
        if isinstance(v, Agg) and v.ty == 'Box*':
            return v.f[0]
        return super().cast(ex, st, v, ty, kind)

    def mkstruct(self, ex, st, agg):
        """a NodeData value on the stack: a record that is not live (yet)"""
        if agg.ty != 'NodeData':
            return agg
        d = dict(zip(agg.names, agg.f))
        t = ex.sym('local')
        st.add(t > 0, Not(sel(st.H['live'], t)), *[t != l for l in st.gh.get('local', ())])
        st.gh['local'] = st.gh.get('local', ()) + (t,)
        g = d['green']
        gi = green_of(g)
        ex.oblige(st, '%s: the node/token tag of a new record matches its green element' % ex.cur, g.is_(0) == isnode(gi), 'mem')
        put = lambda f, v: st.H.__setitem__(f, z3.Store(st.H[f], t, v))
        put('rc', d['rc'])
        pp = d['parent']
        put('P', I(0) if 1 not in pp.vs else z3.If(pp.is_(1), self.rec_of(pp.vs[1][0]), I(0)))
        put('I', d['index'])
        put('G', gi)
        put('M', d['mutable'])
        put('O', d['offset'])
        for f in ('first', 'next', 'prev'):
            put(f, self.rec_of(d[f]))
        return Agg('NodeData*', [rp(t)])

    def boxnew(self, ex, st, v):
        t = self.rec_of(v.f[0])
        b = ex.sym('box')
        H = st.H
        # a fresh allocation: not in use, so nobody's parent and in no list
        st.add(b > 0, Not(sel(H['live'], b)), sel(H['kc'], b) == 0, sel(H['L'], b) == 0, *[b != l for l in st.gh.get('local', ())])
        for f in ('rc', 'P', 'I', 'G', 'M', 'O', 'first', 'next', 'prev'):
            H[f] = z3.Store(H[f], b, sel(H[f], t))
        p = z3.simplify(sel(H['P'], b))
        H['live'] = z3.Store(H['live'], b, True)
        H['own'] = z3.Store(H['own'], b, p == 0)
        H['rk'] = z3.Store(H['rk'], b, z3.If(p == 0, I(0), sel(H['rk'], p) + 1))
        H['rt'] = z3.Store(H['rt'], b, z3.If(p == 0, b, sel(H['rt'], p)))
        st.bal.append((p == 0, 'green', z3.simplify(sel(H['G'], b)), -1))
        self.kids(st, p, +1, True)
        st.add(card(st.H))
        return Agg('Box*', [rp(b)])

    # -------------------------------------------- calls
    def next_item(self, ex, st, a, v):
        """the caller's iterator: hands out handles to live elements that are neither the node nor one of its ancestors
        (X: the node and its ancestors), and edits nothing"""
        k, t, H = v.f[0], v.f[1], st.H
        ex.store(st, Ptr(a.base, a.path + (0,)), k + 1)
        r = opt_element(ex, st, 'item')
        c = rec(r.vs[1][0])
        havoc(ex, st, 'X')
        st.add(closed(H), sel(H['X'], t), sel(H['X'], sel(H['rt'], t)))
        st.add(Implies(r.is_(1), And(c != 0, sel(H['live'], c), ext(H, c) >= 1, Not(sel(H['X'], c)), tagged(r.vs[1][0], sel(H['G'], c)))))
        st.gh['item'] = (c, dict(H))
        return r

    def resolve(self, ex, st, c, args, fr):
        if c.trait == 'Elem':
            return ex.P.bykey['<NodeData as Elem>::' + c.method][0]
        if c.trait == 'AddAssign' and 'Delta' in (c.trait_full or ''):
            for f in ex.P.bykey.get('<$ty as AddAssign>::add_assign', []) + ex.P.bykey.get('<%s as AddAssign>::add_assign' % c.self_ty, []):
                if f.params[0][1] == '&mut ' + c.self_ty:
                    return f
            for fs in ex.P.bykey.values():
                for f in fs:
                    if f.name.endswith('::add_assign') and f.params and f.params[0][1] == '&mut ' + c.self_ty:
                        return f
        return super().resolve(ex, st, c, args, fr)

    def std(self, ex, st, c, args, fr):
        r = self._std(ex, st, c, args, fr)
        if r is not None:
            self.trusted.add(models.norm(c))
            return r
        return super().std(ex, st, c, args, fr)

    def _std(self, ex, st, c, A, fr):
        m, full, tr = c.method, '::'.join(c.path), c.trait
        tn = models.tyname(c)
        one = lambda v: [(st, v)]
        if tr in ('Iterator', 'IntoIterator') and A:
            a = A[0]
            if m == 'enumerate' and isinstance(a, Agg) and a.ty.endswith('SyntaxElementChildren'):
                return one(Agg('Enumerate*', [a, I(0)], ['iter', 'count']))
            if m == 'into_iter' and isinstance(a, Agg) and a.ty in ('Enumerate*', 'Items*'):
                return one(a)
            v = ex.load(st, a) if isinstance(a, Ptr) else None
            if m == 'next' and isinstance(v, Agg) and v.ty == 'Enumerate*':
                out = []
                for s, r in ex.call(st, '<cursor::SyntaxElementChildren as std::iter::Iterator>::next', [Ptr(a.base, a.path + (0,))], fr):
                    n = ex.load(s, Ptr(a.base, a.path + (1,)))
                    ex.store(s, Ptr(a.base, a.path + (1,)), z3.If(r.is_(1), n + 1, n))
                    out.append((s, SEnum('Option', r.d, {i: tuple(Agg('()', [n, x]) for x in fs_) for i, fs_ in r.vs.items()})))
                return out
            if m == 'next' and isinstance(v, Agg) and v.ty == 'Items*':
                return one(self.next_item(ex, st, a, v))
        if tn == 'Box' and not tr:
            if m == 'new' and isinstance(A[0], Agg) and A[0].ty == 'NodeData*':
                return one(self.boxnew(ex, st, A[0]))
            if m == 'into_raw' and isinstance(A[0], Agg) and A[0].ty == 'Box*':
                return one(A[0].f[0])
            if m == 'from_raw' and isinstance(A[0], Ptr):
                return one(Agg('Box*', [A[0]]))
        if tr in ('PartialOrd', 'Ord', 'PartialEq') and 'Cell<u32>' in (c.self_ty or ''):
            a, b = A
            n = 0
            while isinstance(a, Ptr) and n < 3:
                a = ex.load(st, a)
                n += 1
            n = 0
            while isinstance(b, Ptr) and n < 3:
                b = ex.load(st, b)
                n += 1
            if m == 'cmp' or m == 'partial_cmp':
                v = ex.binop(st, fr, 'Cmp', a, b, 'u32')
                return one(v if m == 'cmp' else SOME(v))
            ops = {'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b, 'eq': lambda: a == b, 'ne': lambda: a != b}
            if m in ops:
                return one(ops[m]())
        return None


def green_of(v):
    """green element inside a cursor::Green value"""
    ts = [v.vs[i][0].base[1] for i in sorted(v.vs)]
    return ts[0] if len(ts) == 1 else z3.If(v.is_(0), ts[0], ts[1])


# ------------------------------------------------------------------ contracts
class Heap(Contract):
    world = HeapWorld
    heapmode = True
    balance = False
    hw = ()          # arrays written

    @property
    def writes(self):
        return self.hw

    def effect(self, cx):
        if cx.calling:
            havoc(cx.ex, cx.st, *self.hw)

    def H(self, cx):
        return cx.st0.H, cx.st.H


def reg(key, o, props):
    o.key = 'heap:' + key
    o.fkey = key
    o.props = tuple(props.split())
    CONTRACTS[o.key] = o


def cell(p):
    return Ptr(('rec', p), ('first',))


def cell_owner(v):
    if isinstance(v, Ptr) and isinstance(v.base, tuple) and v.base[0] == 'rec' and v.path == ('first',):
        return v.base[1]
    raise Unsupported('not the head of a list: %r' % (v,))


SN_, ST_ = 'cursor::SyntaxNode', 'cursor::SyntaxToken'
LINKS = ('first', 'next', 'prev', 'L')


def links_frame(H0, H1, p, e=None):
    """links of other lists do not change"""
    c = lambda t: And(sel(H0['L'], t) != p, B(True) if e is None else t != e)
    out = [('links of other lists: ' + n, g) for n, g in same_on(H0, H1, ('next', 'prev'), c)]
    return out + [('heads of other lists: ' + n, g) for n, g in same_on(H0, H1, ('first',), lambda t: t != p)]


class Unlink(Heap):
    hw = LINKS

    def args(self, ex, st, f):
        p, e = ex.sym('owner'), ex.sym('elem')
        return [cell(p), rp(e)]

    def pre(self, cx):
        p, e = cell_owner(cx.a[0]), rec(cx.a[1])
        H = cx.st.H
        return list_inv(H, 'Q') + [('the element is linked in the list', And(sel(H['L'], e) == p, p != 0))]

    def exit(self, cx):
        cx.st.H['L'] = z3.Store(cx.st.H['L'], rec(cx.a[1]), 0)

    def effect(self, cx):
        if cx.calling:
            havoc(cx.ex, cx.st, 'first', 'next', 'prev')
            self.exit(cx)

    def post(self, cx):
        p, e = cell_owner(cx.a[0]), rec(cx.a[1])
        H0, H1 = self.H(cx)
        return [('the element is linked to itself', And(sel(H1['next'], e) == e, sel(H1['prev'], e) == e))] + \
            [('the remaining list: ' + n, g) for n, g in list_inv(H1, 'Q')] + links_frame(H0, H1, p)


reg('sll::unlink', Unlink(), 'P12 P16')


def gap(H, p, c, e):
    """no element of the list at p lies between c and the key of e"""
    t, = qv()
    return fa([t], Implies(sel(H['L'], t) == p, Or(sel(H['I'], t) <= sel(H['I'], c), sel(H['I'], t) > sel(H['I'], e))), (H['L'], t))


def variant_facts(H, v, p, e):
    """what each result of link says about the element e and the list at p"""
    fi = sel(H['first'], p)
    out = []
    if 1 in v.vs:
        out.append(('EmptyHead: the list is empty', Implies(v.is_(1), And(fi == 0, cell_owner(v.vs[1][0]) == p))))
    if 2 in v.vs:
        out.append(('SmallerThanHead: the key is below the head\'s', Implies(v.is_(2), And(fi != 0, sel(H['I'], e) < sel(H['I'], fi), cell_owner(v.vs[2][0]) == p))))
    if 3 in v.vs:
        c = W.World.rec_of(None, v.vs[3][0])
        out.append(('SmallerThanNotHead: the key fits right behind the element',
                    Implies(v.is_(3), And(sel(H['L'], c) == p, sel(H['I'], c) < sel(H['I'], e), gap(H, p, c, e)))))
    if 4 in v.vs:
        c = W.World.rec_of(None, v.vs[4][0])
        out.append(('AlreadyInSll: the element has the same key', Implies(v.is_(4), And(sel(H['L'], c) == p, sel(H['I'], c) == sel(H['I'], e)))))
    return out


def sll_value(ex, st, p):
    d = ex.sym('where')
    st.add(d >= 0, d <= 4)
    return SEnum('AddToSllResult', d, {0: (), 1: (cell(p),), 2: (cell(p),), 3: (rp(ex.sym('curr')),), 4: (rp(ex.sym('found')),)})


class Link(Heap):
    def args(self, ex, st, f):
        p, e = ex.sym('owner'), ex.sym('elem')
        st.gh['local'] = (e,)
        return [cell(p), rp(e)]

    def pre(self, cx):
        p, e = cell_owner(cx.a[0]), rec(cx.a[1])
        H = cx.st.H
        return list_inv(H, 'I') + [('the list owner is live', And(p > 0, sel(H['live'], p)))]

    def fresh_ret(self, cx):
        return sll_value(cx.ex, cx.st, cell_owner(cx.a[0]))

    def post(self, cx):
        p, e = cell_owner(cx.a[0]), rec(cx.a[1])
        return [('there is a head', Not(cx.ret.is_(0)))] + variant_facts(cx.st.H, cx.ret, p, e)


class LinkInv:
    """walking backwards from the last element: everything behind curr has a larger key"""

    def parts(self, c):
        return cell_owner(c.get('head')), rec(c.get('elem')), rec(c.get('curr'))

    def inv(self, c):
        p, e, k = self.parts(c)
        H = c.st.H
        return [('curr is in the list', sel(H['L'], k) == p),
                ('elements behind curr have larger keys', gap(H, p, k, e)),
                ('the head is not larger', sel(H['I'], sel(H['first'], p)) <= sel(H['I'], e))]

    def havoc(self, c):
        c.set('curr', rp(c.ex.sym('curr')))


reg('sll::link', Link(), 'P12 P16')


class AddToSll(Heap):
    hw = LINKS

    def args(self, ex, st, f):
        p, e = ex.sym('owner'), ex.sym('elem')
        st.gh['owner'] = p
        return [ex.alloc(st, sll_value(ex, st, p)), rp(e)]

    def parts(self, cx):
        v = S(cx).arg(0)
        e = rec(cx.a[1])
        if cx.calling:
            ps = [cell_owner(v.vs[i][0]) for i in (1, 2) if i in v.vs]
            p = ps[0] if ps else (sel(cx.st0.H['L'], cx.ex.W.rec_of(v.vs[3][0])) if 3 in v.vs else I(0))
        else:
            p = cx.st0.gh['owner']
        return v, p, e

    def pre(self, cx):
        v, p, e = self.parts(cx)
        H = cx.st.H
        return list_inv(H, 'I') + [
            ('the element is live and in no list', And(sel(H['live'], e), e != 0, sel(H['L'], e) == 0)),
            ('the list owner is live', Or(v.is_(0), And(p > 0, sel(H['live'], p))))] + variant_facts(H, v, p, e)

    def exit(self, cx):
        v, p, e = self.parts(cx)
        cx.st.H['L'] = z3.Store(cx.st.H['L'], e, z3.If(Or(v.is_(0), v.is_(4)), I(0), p))

    def effect(self, cx):
        if cx.calling:
            havoc(cx.ex, cx.st, 'first', 'next', 'prev')
            self.exit(cx)

    def post(self, cx):
        v, p, e = self.parts(cx)
        H0, H1 = self.H(cx)
        return [('the new list: ' + n, g) for n, g in list_inv(H1, 'I')] + links_frame(H0, H1, p, e)


reg('AddToSllResult::add_to_sll', AddToSll(), 'P12 P16')


class Adjust(Heap):
    hw = ('I',)

    def args(self, ex, st, f):
        st.H['Q'] = st.H['I']
        d, x, fr = ex.sym('sub'), ex.sym('amount'), ex.sym('from')
        st.add(d >= 0, d <= 1, x >= 0, x <= U32, fr >= 0, fr <= U32)
        return [rp(ex.sym('elem')), fr, SEnum('Delta', d, {0: (x,), 1: (x,)})]

    def prepare(self, cx):
        cx.st.H['Q'] = cx.st.H['I']

    def parts(self, cx):
        e = rec(cx.a[0])
        by = cx.a[2]
        if by.conc():
            d = by.vs[by.d][0] if by.d == 0 else -by.vs[by.d][0]
        else:
            d = z3.If(by.is_(0), by.vs[0][0], -by.vs[1][0])
        return e, cx.a[1], d

    def pre(self, cx):
        e, fr, d = self.parts(cx)
        H = cx.st.H
        t, = qv()
        p = sel(H['L'], e)
        return list_inv(H, 'I') + [
            ('the element is in a list', p != 0),
            ('no index leaves its range', fa([t], Implies(And(sel(H['L'], t) == p, sel(H['I'], t) >= fr), And(sel(H['I'], t) + d >= 0, sel(H['I'], t) + d <= U32)), (H['I'], t)))]

    def post(self, cx):
        e, fr, d = self.parts(cx)
        H0, H1 = self.H(cx)
        t, = qv()
        return [('exactly the indices from `from` on are shifted',
                 fa([t], sel(H1['I'], t) == sel(H0['I'], t) + z3.If(And(sel(H0['L'], t) == sel(H0['L'], e), sel(H0['I'], t) >= fr), d, I(0)), (H1['I'], t), (H0['I'], t)))]


class AdjustInv:
    """the elements from elem up to curr (cyclically) have been shifted"""

    def inv(self, c):
        H, Q = c.st.H, c.ex.entry_state.H['I']
        e, k = rec(c.get('elem')), rec(c.get('curr'))
        by = c.get('by')
        d = z3.If(by.is_(0), by.vs[0][0], -by.vs[1][0])
        p = sel(H['L'], e)
        t, = qv()
        q = lambda u: sel(Q, u)
        seen = And(sel(H['L'], t) == p, z3.If(q(k) >= q(e), And(q(e) <= q(t), q(t) < q(k)), Or(q(t) >= q(e), q(t) < q(k))))
        return [('curr is in the list', sel(H['L'], k) == p),
                ('exactly the elements visited are shifted',
                 fa([t], sel(H['I'], t) == q(t) + z3.If(And(seen, q(t) >= c.get('from')), d, I(0)), (H['I'], t)))]

    def havoc(self, c):
        c.set('curr', rp(c.ex.sym('curr')))
        havoc(c.ex, c.st, 'I')


reg('sll::adjust', Adjust(), 'P12')


# ------------------------------------------------------------------ counts, new, free
FIELDS = ('P', 'I', 'G', 'M', 'O', 'own', 'rk', 'rt')


def hinv(cx, H, exc=None):
    return [('heap: ' + n, g) for n, g in heap_inv(H, exc)]


def assume_card(ex, st):
    st.add(card(st.H))


def shrink(H0, H1, t, fields=('P', 'L', 'own', 'rt')):
    """one outside reference to t is given up: records nothing refers to any more are freed,
    everything else stays as it is"""
    u, = qv()
    one = z3.If(u == t, I(1), I(0)) if t is not None else I(0)
    out = [('no record appears', fa([u], Implies(sel(H1['live'], u), sel(H0['live'], u)), (H1['live'], u))),
           ('only records without outside references are freed, the others keep theirs',
            fa([u], Implies(sel(H0['live'], u), z3.If(sel(H1['live'], u), ext(H1, u) == ext(H0, u) - one, ext(H0, u) - one == 0)),
               (H1['live'], u), (H1['rc'], u), (H0['rc'], u)))]
    return out + same_on(H0, H1, fields, lambda t: sel(H1['live'], t))


DROPS = ('rc', 'P', 'live', 'kc', 'L', 'first', 'next', 'prev', 'Q', 'own', 'rt')


class HeapFree(Heap):
    hw = DROPS
    balance = True

    def args(self, ex, st, f):
        st.H['Q'] = st.H['I']
        t = ex.sym('data')
        assume_card(ex, st)
        return [rp(t)]

    def pre(self, cx):
        t = rec(cx.a[0])
        H = cx.st.H
        return [('the record is live, its count is zero, it has no child',
                 And(t != 0, sel(H['live'], t), sel(H['rc'], t) == 0, sel(H['kc'], t) == 0))] + hinv(cx, H, t)

    def effect(self, cx):
        super().effect(cx)
        if cx.calling:
            assume_card(cx.ex, cx.st)

    def post(self, cx):
        H0, H1 = self.H(cx)
        t = rec(cx.a[0])
        return [('the record is freed', Not(sel(H1['live'], t)))] + shrink(H0, H1, None) + hinv(cx, H1)


class FreeInv:
    """a chain of ancestors without references is being freed; the rest of the heap is intact"""

    def inv(self, c):
        H0, H1 = c.ex.entry_state.H, c.st.H
        d = rec(c.get('data'))
        t = rec(c.ex.top_args[0])
        return [('the record to free is live, its count is zero, it has no child',
                 And(d != 0, sel(H1['live'], d), sel(H1['rc'], d) == 0, sel(H1['kc'], d) == 0)),
                ('the first record is freed', Or(d == t, Not(sel(H1['live'], t))))] + \
            shrink(H0, H1, None) + [('heap: ' + n, g) for n, g in heap_inv(H1, d)]

    def havoc(self, c):
        c.set('data', rp(c.ex.sym('data')))
        havoc(c.ex, c.st, *[f for f in DROPS if f != 'Q'])
        assume_card(c.ex, c.st)


reg('cursor::free', HeapFree(), 'P16 P12')


class HeapDrop(Heap):
    hw = DROPS
    balance = True

    def args(self, ex, st, f):
        st.H['Q'] = st.H['I']
        t = ex.sym('self')
        assume_card(ex, st)
        return [ex.alloc(st, Agg('cursor::' + self.ty, [rp(t)], ['ptr']))]

    def pre(self, cx):
        t = rec(S(cx).arg(0))
        H = cx.st.H
        return [('the handle denotes a live record and is counted', And(t != 0, sel(H['live'], t), ext(H, t) >= 1))] + hinv(cx, H)

    def effect(self, cx):
        super().effect(cx)
        if cx.calling:
            assume_card(cx.ex, cx.st)

    def post(self, cx):
        H0, H1 = self.H(cx)
        t = rec(S(cx).arg(0))
        u, = qv()
        shared = sel(H0['rc'], t) > 1
        out = shrink(H0, H1, t) + hinv(cx, H1)
        out.append(('while other references exist no record changes, only the count of this one', Implies(shared, fa([u], And(
            sel(H1['rc'], u) == sel(H0['rc'], u) - z3.If(u == t, I(1), I(0)), *[sel(H1[f], u) == sel(H0[f], u) for f in ('live', 'P', 'L', 'kc', 'first', 'next', 'prev', 'own', 'rt')]),
            *[(H1[f], u) for f in ('rc', 'live', 'P', 'L', 'kc', 'first', 'next', 'prev', 'own', 'rt')]))))
        return out


for _t in ('SyntaxNode', 'SyntaxToken'):
    _o = HeapDrop()
    _o.ty = _t
    reg('<cursor::%s as Drop>::drop' % _t, _o, 'P16 P12')


class HeapNew(Heap):
    hw = tuple(f for f in SORT if f in ('rc', 'P', 'I', 'G', 'M', 'O', 'first', 'next', 'prev', 'live', 'kc', 'L', 'Q', 'own', 'rk', 'rt'))
    balance = True

    def args(self, ex, st, f):
        st.H['Q'] = st.H['I']
        assume_card(ex, st)
        ps, p, i, o, gt, g, m = (ex.sym('some'), ex.sym('parent'), ex.sym('index'), ex.sym('offset'), ex.sym('tag'), ex.sym('green'), ex.sym('mutable', 'bool'))
        st.add(ps >= 0, ps <= 1, i >= 0, i <= U32, o >= 0, o <= U32, gt >= 0, gt <= 1, gfacts(g))
        st.bal.append((ps == 0, 'green', g, +1))
        return [SEnum('Option', ps, {0: (), 1: (Agg('cursor::SyntaxNode', [rp(p)], ['ptr']),)}), i, o,
                SEnum('Green', gt, {0: (Ptr(('gn', g)),), 1: (Ptr(('gt', g)),)}), m]

    def parts(self, cx):
        parent, index, offset, green, mutable = cx.a
        ps, pv = opt(parent)
        return ps, (rec(pv) if pv is not None else I(0)), index, offset, green, green_of(green), mutable

    def pre(self, cx):
        ps, p, index, offset, green, g, mutable = self.parts(cx)
        H = cx.st.H
        s = lambda f, t: sel(H[f], t)
        cx.st.add(gok(g) == gfacts(g))
        return hinv(cx, H) + [
            ('the parent handle denotes a live record and is counted', Implies(ps, And(p != 0, s('live', p), ext(H, p) >= 1))),
            ('the green element is the parent\'s child at this index', Implies(ps, And(isnode(s('G', p)), index >= 0, index < gn(s('G', p)), g == ch(s('G', p), index)))),
            ('the index fits', And(index >= 0, index < U32)),
            ('a root starts at offset and index 0', Implies(Not(ps), And(index == 0, offset == 0))),
            ('the offset is the position of the child', Implies(And(ps, Not(mutable)), offset == s('O', p) + rel(s('G', p), index))),
            ('mutability is inherited', Implies(ps, mutable == s('M', p))),
            ('the node/token tag matches the green element', green.is_(0) == isnode(g)),
            ('the green element is well formed', gok(g))]

    def fresh_ret(self, cx):
        return rp(cx.ex.sym('r'))

    def effect(self, cx):
        super().effect(cx)
        if cx.calling:
            ps, p, index, offset, green, g, mutable = self.parts(cx)
            assume_card(cx.ex, cx.st)
            cx.st.bal.append((Not(ps), 'green', g, -1))

    def post(self, cx):
        ps, p, index, offset, green, g, mutable = self.parts(cx)
        H0, H1 = self.H(cx)
        r = cx.ret.base[1]
        u, = qv()
        s = lambda f: sel(H1[f], r)
        pp = z3.If(ps, p, I(0))
        was = sel(H0['live'], r)
        e0 = z3.If(sel(H0['live'], u), ext(H0, u), I(0))
        return [('the result is a live record at this position',
                 And(r != 0, s('live'), s('P') == pp, s('I') == index, s('G') == g, s('M') == mutable)),
                ('a new record stores the offset', Implies(Not(was), s('O') == offset)),
                ('a new record has no child, its root is that of its parent', Implies(Not(was), And(s('kc') == 0, s('rt') == z3.If(ps, sel(H0['rt'], p), r)))),
                ('an existing record is reused only in a mutable tree', Implies(was, And(mutable, ps))),
                ('exactly the result is new', fa([u], sel(H1['live'], u) == Or(sel(H0['live'], u), u == r), (H1['live'], u), (H0['live'], u))),
                ('the parent handle is given up, one to the result is returned',
                 fa([u], Implies(sel(H1['live'], u), ext(H1, u) == e0 + z3.If(u == r, I(1), I(0)) - z3.If(And(ps, u == p), I(1), I(0))),
                    (H1['rc'], u), (H1['live'], u))),
                ('a new record is one more child of its parent', fa([u], Implies(sel(H0['live'], u),
                    sel(H1['kc'], u) == sel(H0['kc'], u) + z3.If(And(Not(was), ps, u == p), I(1), I(0))), (H1['kc'], u)))] + \
            same_on(H0, H1, FIELDS + ('L',), lambda t: sel(H0['live'], t)) + hinv(cx, H1)


reg('NodeData::new', HeapNew(), 'P12 P16')


# ------------------------------------------------------------------ what the heap layer means for the navigation layer
def positions(st, t):
    """definition (by recursion over the parents) of the ghost fields of the navigation layer"""
    r, p, q = W.Rec(st, t), W.Rec(st, W.h(st, 'P', t)), None
    g = p.G
    base = r.P == 0
    f = lambda x, y: z3.If(base, I(0), p.__getattr__(x) + y)
    return And(r.A == f('A', W.rel(g, r.I)), r.D == f('D', 1), r.T == f('T', W.ptok(g, r.I)), r.N == f('N', 1 + 2 * W.pnsz(g, r.I)),
               r.E == f('E', 1 + 2 * W.pesz(g, r.I)), r.root == W.h(st, 'rt', t))


def heap_at(H, t, exc=None):
    """the heap invariant, instantiated at t"""
    out = []
    for n, g in heap_inv(H, exc):
        if not n.startswith('sibling') and g.num_vars() == 1:
            out.append(z3.substitute_vars(g.body(), t))
    return out


def lemma_state():
    st = State()
    for k, srt in SORT.items():
        st.H[k] = z3.Array('H_' + k, Int, srt)
    return st


@lemma('records of a heap that satisfies the heap invariant are valid', 'P12 P16 P05 P06')
def _valid():
    st = lemma_state()
    t, m, i, g = z3.Ints('t m i g')
    H = st.H
    p = W.h(st, 'P', t)
    hyp = heap_at(H, t) + [sel(H['live'], t), positions(st, t), W.gfacts(W.h(st, 'G', t)), gok(W.h(st, 'G', t)) == W.gfacts(W.h(st, 'G', t))]
    up = heap_at(H, p) + [positions(st, p), gok(W.h(st, 'G', p)) == W.gfacts(W.h(st, 'G', p)), W.cfacts(W.h(st, 'G', p), W.h(st, 'I', t))]
    # an immutable record's offset is its position: goes with it by the same induction
    whole = lambda x: And(W.valid(st, x), Implies(Not(W.h(st, 'M', x)), W.h(st, 'O', x) == W.h(st, 'A', x)))
    out = [('a root is valid', hyp + [p == 0, W.h(st, 'root', t) == t], whole(t)),
           ('a record whose parent is valid is valid (induction over the rank)', hyp + up + [p != 0, p != t, whole(p)], whole(t))]
    # the contract of NodeData::new in the navigation layer follows from the one verified here
    ps, mut = z3.Bools('ps mut')
    o = z3.Int('o')
    c, cap = z3.Int('c'), None
    nav = [Implies(ps, And(isnode(W.h(st, 'G', m)), i >= 0, i < gn(W.h(st, 'G', m)), g == ch(W.h(st, 'G', m), i), mut == W.h(st, 'M', m), whole(m), sel(H['live'], m))),
           Implies(And(ps, Not(mut)), o == W.h(st, 'A', m) + W.rel(W.h(st, 'G', m), i)), Implies(Not(ps), And(i == 0, o == 0)), W.gfacts(g)]
    out.append(('a caller that meets the navigation contract of NodeData::new meets this one', nav,
                And(i >= 0, i < U32, Implies(And(ps, Not(mut)), o == sel(H['O'], m) + W.rel(sel(H['G'], m), i)))))
    return out


@lemma('when no reference is left no record is', 'P16')
def _leak():
    """of the live records (finitely many) take one of the greatest rank: it would have a child, of a greater rank"""
    st = lemma_state()
    H = st.H
    t, c = z3.Ints('t c')
    u, = qv()
    wit = [Implies(sel(H['kc'], t) >= 1, And(sel(H['live'], c), sel(H['P'], c) == t))]      # definition of kc
    hyp = heap_at(H, t) + heap_at(H, c) + wit + [sel(H['live'], t), Implies(sel(H['live'], c), sel(H['rk'], c) <= sel(H['rk'], t))]
    return [('a live record of the greatest rank is referenced from outside', hyp, sel(H['rc'], t) - sel(H['kc'], t) >= 1)]


# ------------------------------------------------------------------ respine
class Respine(Heap):
    """replaces the green element of self and rebuilds those of its ancestors"""
    hw = ('G', 'S')
    balance = True

    def args(self, ex, st, f):
        t, g = ex.sym('self'), ex.sym('new_green')
        st.H['Q'] = st.H['I']
        u, = qv()
        S = st.H['S']
        st.add(fa([u], sel(S, u) == z3.If(u == t, I(-1), I(0)), (S, u)), gok(g) == gfacts(g))
        return [rp(t), Agg('GreenNode', [Ptr(('garc', g))], ['ptr'])]

    def parts(self, cx):
        return rec(cx.a[0]), cx.a[1].f[0].base[1]

    def prepare(self, cx):
        t, _ = self.parts(cx)
        H, u = cx.st.H, qv()[0]
        d = fa([u], Implies(And(sel(H['live'], u), sel(H['P'], u) == t), sel(H['L'], u) == t), (H['P'], u))
        cx.ex.oblige(cx.st, '%s: the children are linked in the list' % cx.ex.cur, d, 'lemma')
        cx.st.add(d)

    def pre(self, cx):
        t, g = self.parts(cx)
        H = cx.st.H
        return [('the record is a live mutable node', And(t != 0, sel(H['live'], t), sel(H['M'], t), isnode(sel(H['G'], t)))),
                ('the new green element is a node', And(isnode(g), gok(g)))] + \
            [('heap (children of self against the new green element): ' + n, x) for n, x in heap_inv(H, None, (t, g))]

    def post(self, cx):
        t, g = self.parts(cx)
        H0, H1 = self.H(cx)
        return path_edit(H0, H1, t, g) + hinv(cx, H1)


def path_edit(H0, H1, t, g):
    """S marks t and its ancestors (S of an ancestor: its child on the path); the green element of t is g, that of
    each ancestor is the old one with the child on the path replaced; no other changes"""
    S, G0, G1, P = H1['S'], H0['G'], H1['G'], H0['P']
    u, = qv()
    return [('the path starts at the record', And(sel(S, t) == -1, sel(G1, t) == g)),
            ('the path is closed under parents', fa([u], Implies(sel(S, u) != 0, And(sel(H0['live'], u), sel(H0['rk'], u) <= sel(H0['rk'], t), Implies(sel(P, u) != 0, sel(S, sel(P, u)) == u))), (S, u))),
            ('the path consists of the record and its ancestors',
             fa([u], Implies(And(sel(S, u) != 0, u != t), And(sel(S, u) > 0, sel(P, sel(S, u)) == u, sel(S, sel(S, u)) != 0)), (S, u))),
            ('the path is mutable', fa([u], Implies(sel(S, u) != 0, sel(H0['M'], u)), (S, u))),
            ('green elements off the path are unchanged', fa([u], Implies(sel(S, u) == 0, sel(G1, u) == sel(G0, u)), (G1, u))),
            ('each ancestor is rebuilt with the new child at the same index',
             fa([u], Implies(And(sel(S, u) != 0, u != t), edited(sel(G1, u), sel(G0, u), sel(H0['I'], sel(S, u)), sel(G1, sel(S, u)))), (S, u)))]


class RespineInv:
    """the records below node are rebuilt; new_green is the green element node is to have"""

    def inv(self, c):
        H0, H = c.ex.entry_state.H, c.st.H
        t, g0 = rec(c.ex.top_args[0]), c.ex.top_args[1].f[0].base[1]
        n, g = rec(c.get('node')), c.get('new_green').f[0].base[1]
        S, G, P = H['S'], H['G'], H['P']
        u, = qv()
        on = sel(S, u) != 0
        return [
            ('node is a live mutable node on the path', And(sel(S, t) == -1, n != 0, sel(S, n) != 0, sel(H['live'], n), sel(H['M'], n), isnode(sel(G, n)))),
            ('the path leads up to node', fa([u], Implies(on, And(sel(H['live'], u), sel(H['rk'], u) >= sel(H['rk'], n), sel(H['rk'], u) <= sel(H['rk'], t),
                                                                  Implies(u != n, And(sel(P, u) != 0, sel(S, sel(P, u)) == u)))), (S, u))),
            ('the path starts at the record', fa([u], Implies(And(on, u != t), And(sel(S, u) > 0, sel(P, sel(S, u)) == u, sel(S, sel(S, u)) != 0)), (S, u))),
            ('the path is mutable', fa([u], Implies(on, sel(H['M'], u)), (S, u))),
            ('others are unchanged', fa([u], Implies(Or(Not(on), u == n), sel(G, u) == sel(H0['G'], u)), (G, u))),
            ('the pending green element is that of node with its child on the path replaced',
             z3.If(n == t, g == g0, And(sel(G, t) == g0, edited(g, sel(H0['G'], n), sel(H['I'], sel(S, n)), sel(G, sel(S, n)))))),
            ('the records passed are rebuilt', fa([u], Implies(And(on, u != t, u != n), edited(sel(G, u), sel(H0['G'], u), sel(H['I'], sel(S, u)), sel(G, sel(S, u)))), (S, u))),
            ('the pending green element is a node', And(isnode(g), gok(g)))] + \
            [('heap: ' + m, x) for m, x in heap_inv(H, None, (n, g))]

    def havoc(self, c):
        n, g = c.ex.sym('node'), c.ex.sym('green')
        c.st.gh['respine'] = n
        c.set('node', rp(n))
        c.set('new_green', Agg('GreenNode', [Ptr(('garc', g))], ['ptr']))
        c.st.add(gok(g) == gfacts(g))
        havoc(c.ex, c.st, 'G', 'S')

    def step(self, c):
        H, n = c.st.H, c.st.gh['respine']
        H['S'] = z3.Store(H['S'], rec(c.get('node')), n)
        u, = qv()
        c.st.add(Implies(sel(H['live'], n), sel(H['L'], n) == z3.If(sel(H['M'], n), sel(H['P'], n), I(0))))     # instance of the heap invariant
        d = fa([u], Implies(And(sel(H['live'], u), sel(H['P'], u) == sel(H['P'], n), u != n),
                            And(sel(H['I'], u) != sel(H['I'], n), sel(H['L'], u) == sel(H['P'], u))), (H['P'], u))
        c.ex.oblige(c.st, 'NodeData::respine: no sibling of node has its index', d, 'lemma')
        c.st.add(d)


reg('NodeData::respine', Respine(), 'P11 P12 P13')


# ------------------------------------------------------------------ detach, attach_child
def panic_leaves(frame=True):
    def on_panic(self, ex, st):
        """a panic leaves a heap that satisfies the invariant, and immutable trees as they were"""
        return [('heap: ' + n, g) for n, g in heap_inv(st.H)] + (immutable_frame(ex.entry_state.H, st.H) if frame else [])
    return on_panic


def closed(H):
    """the ghost set X is closed under parents"""
    u, = qv()
    return fa([u], Implies(And(sel(H['X'], u), sel(H['live'], u), sel(H['P'], u) != 0), sel(H['X'], sel(H['P'], u))), (H['X'], u))


class Detach(Heap):
    on_panic = panic_leaves()
    hw = tuple(f for f in SORT if f not in ('M', 'O', 'X', 'rk'))
    balance = True

    def args(self, ex, st, f):
        st.H['Q'] = st.H['I']
        st.gh['X'] = True
        assume_card(ex, st)
        return [rp(ex.sym('self'))]

    def who(self, cx):
        return rec(cx.a[0])

    def pre(self, cx):
        t, H = self.who(cx), cx.st.H
        return [('the record is live and referenced from outside', And(t != 0, sel(H['live'], t), ext(H, t) >= 1)),
                ('the ghost set is closed under parents', closed(H))] + hinv(cx, H)

    def panics(self, cx, msg):
        return Not(sel(cx.st0.H['M'], self.who(cx)))

    def effect(self, cx):
        super().effect(cx)
        if cx.calling:
            assume_card(cx.ex, cx.st)

    def post(self, cx):
        if cx.calling:
            cx.st.gh['mid'] = dict(cx.st.H)
        return detached(*self.H(cx), self.who(cx)) + hinv(cx, self.H(cx)[1]) + [('only mutable trees are edited', sel(cx.st0.H['M'], self.who(cx)))]



def rebuilt(H0, H1, t, at_top):
    """as path_edit, for the records that survive; at_top(new, old): what happened to the green element of t"""
    S, G0, G1, P = H1['S'], H0['G'], H1['G'], H0['P']
    u, = qv()
    lv = sel(H1['live'], u)
    up = z3.If(sel(S, u) > 0, sel(S, u), I(0))
    return [('the record edited is marked', sel(S, t) == -1),
            ('its new green element', Implies(sel(H1['live'], t), at_top(sel(G1, t), sel(G0, t)))),
            ('the marked records are closed under parents', fa([u], Implies(sel(S, u) != 0, And(sel(H0['live'], u), Implies(sel(P, u) != 0, sel(S, sel(P, u)) == u))), (S, u))),
            ('only ancestors are marked',
             fa([u], Implies(And(sel(S, u) != 0, u != t), And(sel(S, u) > 0, sel(P, sel(S, u)) == u, sel(S, sel(S, u)) != 0)), (S, u))),
            ('the marked records are mutable', fa([u], Implies(sel(S, u) != 0, sel(H0['M'], u)), (S, u))),
            ('no other record has another green element', fa([u], Implies(sel(S, u) == 0, sel(G1, u) == sel(G0, u)), (G1, u))),
            ('each ancestor is rebuilt with the new child at the same index',
             fa([u], Implies(And(sel(S, u) != 0, u != t), edited(sel(G1, u), sel(G0, u), sel(H0['I'], sel(S, u)), sel(G1, sel(S, u)))), (S, u)))]


def immutable_frame(H0, H1):
    """the records of immutable trees are as before"""
    u, = qv()
    return [('an immutable record keeps its ' + n, fa([u], Implies(And(sel(H1['live'], u), sel(H0['live'], u), Not(sel(H0['M'], u))), sel(H1[f], u) == sel(H0[f], u)), (H1[f], u)))
            for f, n in (('G', 'green element'), ('P', 'parent'), ('I', 'index'), ('M', 'mutability'), ('O', 'stored offset'))]


def detached(H0, H1, t):
    P, I0 = H0['P'], H0['I']
    p, i = sel(P, t), sel(I0, t)
    isroot = p == 0
    u, = qv()
    s0 = lambda f: sel(H0[f], u)
    s1 = lambda f: sel(H1[f], u)
    out = [('a root is left as it is: ' + n, Implies(isroot, g)) for n, g in same_on(H0, H1, [f for f in SORT if f not in ('S', 'Q')], lambda t: B(True))]
    out += [('the record is detached', And(sel(H1['P'], t) == 0, sel(H1['live'], t), sel(H1['L'], t) == 0, sel(H1['I'], t) == i)),
            ('it was linked in its parent', sel(H0['L'], t) == p),
            ('every other record keeps its parent', fa([u], Implies(And(s1('live'), u != t), And(s1('P') == s0('P'), s1('L') == s0('L'))), (H1['P'], u), (H1['L'], u))),
            ('exactly the later siblings move down by one',
             fa([u], Implies(s1('live'), s1('I') == s0('I') - z3.If(And(Not(isroot), s0('L') == p, s0('I') > i), I(1), I(0))), (H1['I'], u)))]
    u, = qv()
    out += shrink(H0, H1, None, ())
    out += [('the roots: ' + n, g) for n, g in [
        ('only records of its tree get another root, and that is the record', fa([u], Implies(sel(H1['live'], u), Or(sel(H1['rt'], u) == sel(H0['rt'], u),
                                And(sel(H1['rt'], u) == t, sel(H0['rt'], u) == sel(H0['rt'], t)))), (H1['rt'], u))),
        ('a set closed under parents without the record keeps its roots', fa([u], Implies(And(sel(H1['live'], u), sel(H0['X'], u), Not(sel(H0['X'], t))), sel(H1['rt'], u) == sel(H0['rt'], u)), (H1['rt'], u)))]]
    out += [('green elements: ' + n, Implies(Not(isroot), g)) for n, g in rebuilt(H0, H1, p, lambda new, old: removed(new, old, i))]
    return out + immutable_frame(H0, H1)


reg('NodeData::detach', Detach(), 'P11 P12 P13 P16')


class Attach(Heap):
    on_panic = panic_leaves()
    hw = tuple(f for f in SORT if f not in ('M', 'O', 'X', 'live'))
    balance = True

    def args(self, ex, st, f):
        st.H['Q'] = st.H['I']
        assume_card(ex, st)
        i = ex.sym('index')
        st.add(i >= 0)
        return [rp(ex.sym('self')), i, rp(ex.sym('child'))]

    def parts(self, cx):
        return rec(cx.a[0]), cx.a[1], rec(cx.a[2])

    def pre(self, cx):
        (t, i, c), H = self.parts(cx), cx.st.H
        return [('both records are live', And(t != 0, sel(H['live'], t), c != 0, sel(H['live'], c))),
                ('the record is a node', isnode(sel(H['G'], t))),
                ('the record is not in the tree of the child', Implies(sel(H['P'], c) == 0, sel(H['rt'], t) != c))] + hinv(cx, H)

    def bad(self, cx):
        (t, i, c), H = self.parts(cx), cx.st0.H
        return Or(Not(sel(H['M'], t)), Not(sel(H['M'], c)), sel(H['P'], c) != 0, i > gn(sel(H['G'], t)))

    def panics(self, cx, msg):
        return self.bad(cx)

    def effect(self, cx):
        super().effect(cx)
        if cx.calling:
            assume_card(cx.ex, cx.st)

    def post(self, cx):
        t, i, c = self.parts(cx)
        return [('panics when a tree is immutable, the child has a parent, or the index is beyond the children', Not(self.bad(cx)))] + \
            attached(*self.H(cx), t, i, c) + hinv(cx, self.H(cx)[1])


def attached(H0, H1, t, i, c):
    u, = qv()
    s0 = lambda f: sel(H0[f], u)
    s1 = lambda f: sel(H1[f], u)
    out = [('the child is attached at the index', And(sel(H1['P'], c) == t, sel(H1['L'], c) == t, sel(H1['I'], c) == i, sel(H1['G'], c) == sel(H0['G'], c))),
           ('every other record keeps its parent', fa([u], Implies(And(s0('live'), u != c), And(s1('P') == s0('P'), s1('L') == s0('L'))), (H1['P'], u), (H1['L'], u))),
           ('exactly the siblings from the index on move up by one',
            fa([u], Implies(And(s0('live'), u != c), s1('I') == s0('I') + z3.If(And(s0('L') == t, s0('I') >= i), I(1), I(0))), (H1['I'], u))),
           ('outside references are unchanged', fa([u], Implies(s0('live'), ext(H1, u) == ext(H0, u)), (H1['rc'], u), (H0['rc'], u))),
           ('the roots of the tree of the child change', fa([u], sel(H1['rt'], u) == z3.If(sel(H0['rt'], u) == c, sel(H0['rt'], t), sel(H0['rt'], u)), (H1['rt'], u)))]
    out += [('green elements: ' + n, g) for n, g in rebuilt(H0, H1, t, lambda new, old: inserted(new, old, i, sel(H0['G'], c)))]
    return out + immutable_frame(H0, H1)


reg('NodeData::attach_child', Attach(), 'P11 P12 P13 P16 P22')


# ------------------------------------------------------------------ handles: clone, detach, attach_child
class HeapClone(Heap):
    hw = ('rc',)
    balance = True

    def args(self, ex, st, f):
        st.H['Q'] = st.H['I']
        return [ex.alloc(st, Agg('cursor::' + self.ty, [rp(ex.sym('self'))], ['ptr']))]

    def pre(self, cx):
        t, H = rec(S(cx).arg(0)), cx.st.H
        return [('the handle denotes a live record of its kind', And(t != 0, sel(H['live'], t), isnode(sel(H['G'], t)) == (self.ty == 'SyntaxNode')))] + hinv(cx, H)

    def fresh_ret(self, cx):
        return Agg('cursor::' + self.ty, [rp(cx.ex.sym('clone'))], ['ptr'])

    def post(self, cx):
        t, H0, H1, u = rec(S(cx).arg(0)), cx.st0.H, cx.st.H, qv()[0]
        return [('a handle to the same record', rec(cx.ret) == t),
                ('one more reference to that record', fa([u], sel(H1['rc'], u) == sel(H0['rc'], u) + z3.If(u == t, I(1), I(0)), (H1['rc'], u), (H0['rc'], u)))] + hinv(cx, H1)


for _t in ('SyntaxNode', 'SyntaxToken'):
    _o = HeapClone()
    _o.ty = _t
    reg('<cursor::%s as Clone>::clone' % _t, _o, 'P16 P12')


def handle(ty, t):
    return Agg('cursor::' + ty, [rp(t)], ['ptr'])


def element(ex, st, t, what):
    d = ex.sym(what)
    st.add(d >= 0, d <= 1)
    return SEnum('NodeOrToken', d, {0: (handle('SyntaxNode', t),), 1: (handle('SyntaxToken', t),)})


class HandleDetach(Detach):
    """SyntaxNode::detach, SyntaxToken::detach and the element form"""

    def args(self, ex, st, f):
        t = Detach.args(self, ex, st, f)[0]
        return [ex.alloc(st, element(ex, st, t.base[1], 'tag') if self.ty is None else handle(self.ty, t.base[1]))]

    def who(self, cx):
        return rec(S(cx).arg(0))


for _t, _k in (('SyntaxNode', SN_ + '::detach'), ('SyntaxToken', ST_ + '::detach'), (None, 'NodeOrToken<%s, %s>::detach' % (SN_, ST_))):
    _o = HandleDetach()
    _o.ty = _t
    reg(_k, _o, 'P11 P12 P13 P16 P22')


class HandleAttach(Heap):
    on_panic = panic_leaves()
    hw = tuple(f for f in SORT if f not in ('M', 'O', 'X'))
    balance = True
    inline = True

    def args(self, ex, st, f):
        st.H['Q'] = st.H['I']
        st.gh['X'] = True
        assume_card(ex, st)
        i = ex.sym('index')
        st.add(i >= 0)
        return [ex.alloc(st, handle('SyntaxNode', ex.sym('self'))), i, element(ex, st, ex.sym('child'), 'tag')]

    def parts(self, cx):
        return rec(S(cx).arg(0)), cx.a[1], rec(cx.a[2])

    def pre(self, cx):
        (t, i, c), H = self.parts(cx), cx.st.H
        return [('both handles denote live records and are counted', And(t != 0, sel(H['live'], t), ext(H, t) >= 1, c != 0, sel(H['live'], c), ext(H, c) >= 1)),
                ('the record is a node', isnode(sel(H['G'], t))),
                ('the ghost set is closed under parents', closed(H)),
                ('the child is neither the node nor one of its ancestors', And(sel(H['X'], t), sel(H['X'], sel(H['rt'], t)), Not(sel(H['X'], c))))] + hinv(cx, H)

    def bad(self, cx):
        (t, i, c), H = self.parts(cx), cx.st0.H
        return Or(Not(sel(H['M'], t)), Not(sel(H['M'], c)), i > gn(sel(H['G'], t)) - z3.If(sel(H['P'], c) == t, I(1), I(0)))

    def panics(self, cx, msg):
        return self.bad(cx)

    def post(self, cx):
        t, i, c = self.parts(cx)
        H0, H1 = self.H(cx)
        mid = cx.st.gh.get('mid', H0)
        return [('panics exactly when a tree is immutable or the index is beyond the children left', Not(self.bad(cx)))] + self.effects(H0, mid, H1, t, i, c) + hinv(cx, H1)

    def effects(self, H0, mid, H1, t, i, c):
        u, = qv()
        s0 = lambda f: sel(H0[f], u)
        s1 = lambda f: sel(H1[f], u)
        lv = s1('live')
        p = sel(H0['P'], c)
        i1 = s0('I') - z3.If(And(p != 0, s0('L') == p, s0('I') > sel(H0['I'], c)), I(1), I(0))
        out = [('the node survives', sel(H1['live'], t)),
               ('every record but the child keeps its parent', fa([u], Implies(And(lv, u != c), s1('P') == s0('P')), (H1['P'], u))),
               ('the child is at the index', Implies(sel(H1['live'], c), And(sel(H1['P'], c) == t, sel(H1['I'], c) == i, sel(H1['G'], c) == sel(H0['G'], c)))),
               ('the siblings close the gap and make room', fa([u], Implies(And(lv, u != c), s1('I') == i1 + z3.If(And(s0('L') == t, i1 >= i), I(1), I(0))), (H1['I'], u)))]
        out += shrink(H0, H1, c, ())
        out += [('taking the child out: ' + n, Implies(p != 0, g)) for n, g in rebuilt(H0, mid, p, lambda new, old: removed(new, old, sel(H0['I'], c)))]
        out += [('a root is taken from nowhere', Implies(p == 0, fa([u], sel(mid['G'], u) == s0('G'), (mid['G'], u))))]
        out += [('putting the child in: ' + n, g) for n, g in rebuilt(mid, H1, t, lambda new, old: inserted(new, old, i, sel(H0['G'], c)))]
        return out + immutable_frame(H0, H1)


HANDLE_ATTACH = HandleAttach()
reg(SN_ + '::attach_child', HANDLE_ATTACH, 'P11 P12 P13 P16 P22')


# ------------------------------------------------------------------ roots, copies
def new_records(H0, H1, r):
    """a handle to the new record r is returned; whatever existed is as before"""
    u, = qv()
    e0 = z3.If(sel(H0['live'], u), ext(H0, u), I(0))
    return [('the record is new and has no child', And(r != 0, Not(sel(H0['live'], r)), sel(H1['live'], r), sel(H1['kc'], r) == 0)),
            ('no record disappears', fa([u], Implies(sel(H0['live'], u), sel(H1['live'], u)), (H1['live'], u), (H0['live'], u))),
            ('the one reference from outside to new records is the handle returned',
             fa([u], Implies(sel(H1['live'], u), ext(H1, u) == e0 + z3.If(u == r, I(1), I(0))), (H1['rc'], u), (H1['live'], u)))] + \
        same_on(H0, H1, FIELDS + ('L', 'kc'), lambda t: sel(H0['live'], t))


class HeapRoot(Heap):
    hw = HeapNew.hw
    balance = True

    def args(self, ex, st, f):
        st.H['Q'] = st.H['I']
        assume_card(ex, st)
        g = ex.sym('green')
        st.add(gok(g) == gfacts(g))
        return [Agg('GreenNode', [Ptr(('garc', g))], ['ptr'])]

    def pre(self, cx):
        g = cx.a[0].f[0].base[1]
        return hinv(cx, cx.st.H) + [('the green element is a node', And(isnode(g), gok(g)))]

    def fresh_ret(self, cx):
        return handle('SyntaxNode', cx.ex.sym('root'))

    def effect(self, cx):
        super().effect(cx)
        if cx.calling:
            assume_card(cx.ex, cx.st)

    def green(self, cx):
        return cx.a[0].f[0].base[1]

    def post(self, cx):
        (H0, H1), r = self.H(cx), rec(cx.ret)
        s = lambda f: sel(H1[f], r)
        u, = qv()
        return [('a root over the green node, at offset 0', And(s('P') == 0, s('G') == self.green(cx), s('rt') == r, s('I') == 0, s('M') == self.mut,
                                                               Implies(Not(s('M')), s('O') == 0))),
                ('no other record is new', fa([u], Implies(And(sel(H1['live'], u), Not(sel(H0['live'], u))), u == r), (H1['live'], u)))] + new_records(H0, H1, r) + hinv(cx, H1)


for _k, _m in ((SN_ + '::new_root', False), (SN_ + '::new_root_mut', True)):
    _o = HeapRoot()
    _o.mut = B(_m)
    reg(_k, _o, 'P13 P16 P12')


class HeapSubtree(HeapRoot):
    """clone_subtree"""
    mut = B(False)

    def args(self, ex, st, f):
        st.H['Q'] = st.H['I']
        assume_card(ex, st)
        return [ex.alloc(st, handle('SyntaxNode', ex.sym('self')))]

    def pre(self, cx):
        t, H = rec(S(cx).arg(0)), cx.st.H
        return hinv(cx, H) + [('the handle denotes a live node and is counted', And(t != 0, sel(H['live'], t), ext(H, t) >= 1, isnode(sel(H['G'], t))))]

    def green(self, cx):
        return sel(cx.st0.H['G'], rec(S(cx).arg(0)))


reg(SN_ + '::clone_subtree', HeapSubtree(), 'P13 P16')


class HeapCopy(HeapSubtree):
    """clone_for_update: a mutable copy of the tree, the handle to the same element in it"""
    recursive = True

    def panics(self, cx, msg):
        return sel(cx.st0.H['M'], rec(S(cx).arg(0)))

    def post(self, cx):
        (H0, H1), r, t = self.H(cx), rec(cx.ret), rec(S(cx).arg(0))
        s0, s1 = lambda f, x=t: sel(H0[f], x), lambda f, x=r: sel(H1[f], x)
        u, = qv()
        q0, q1 = s0('P'), s1('P')
        return [('panics exactly when the tree is mutable', Not(s0('M'))),
                ('the copy is mutable and denotes the same element', And(s1('M'), s1('G') == s0('G'), Implies(q0 != 0, s1('I') == s0('I')), (q1 == 0) == (q0 == 0))),
                ('so does its parent', Implies(q0 != 0, And(s1('M', q1), s1('G', q1) == s0('G', q0), (s1('P', q1) == 0) == (s0('P', q0) == 0),
                                                            Implies(s0('P', q0) != 0, s1('I', q1) == s0('I', q0))))),
                ('the root is new and has the same green tree', And(s1('rt') > 0, Not(sel(H0['live'], s1('rt'))), s1('live', s1('rt')), s1('P', s1('rt')) == 0, s1('G', s1('rt')) == s0('G', s0('rt')))),
                ('records that are new belong to the copy', fa([u], Implies(And(sel(H1['live'], u), Not(sel(H0['live'], u))), And(sel(H1['rt'], u) == s1('rt'), sel(H1['M'], u))), (H1['live'], u))),
                ] + new_records(H0, H1, r) + hinv(cx, H1)


reg(SN_ + '::clone_for_update', HeapCopy(), 'P13 P16 P22')


# ------------------------------------------------------------------ stepping over the children of a mutable tree
class HeapOffset(Heap):
    """NodeData::offset is verified in the navigation layer, in which every record of such a heap is valid"""
    trusted_here = True
    by = ('NodeData::offset', 'lemma:records of a heap that satisfies the heap invariant are valid')

    def pre(self, cx):
        t, H = rec(cx.a[0]), cx.st.H
        return [('the record is live', And(t != 0, sel(H['live'], t)))] + hinv(cx, H)

    def post(self, cx):
        t, H = rec(cx.a[0]), cx.st.H
        g = sel(H['G'], t)
        cx.st.add(gok(g) == gfacts(g))
        return [('the position', And(cx.ret >= 0, cx.ret + glen(g) <= U32, Implies(Not(sel(H['M'], t)), cx.ret == sel(H['O'], t))))]


reg('NodeData::offset', HeapOffset(), '')


def opt_element(ex, st, what):
    d = ex.sym(what + '.some')
    st.add(d >= 0, d <= 1)
    return SEnum('Option', d, {0: (), 1: (element(ex, st, ex.sym(what), what + '.tag'),)})


def handed_out(H0, H1, some, r):
    """no edit: if some, a handle to r is returned (an existing record or a new one)"""
    u, = qv()
    e0 = z3.If(sel(H0['live'], u), ext(H0, u), I(0))
    return [('no record disappears, at most the result is new', fa([u], sel(H1['live'], u) == Or(sel(H0['live'], u), And(some, u == r)), (H1['live'], u), (H0['live'], u))),
            ('one reference to the result is returned, no other changes',
             fa([u], Implies(sel(H1['live'], u), ext(H1, u) == e0 + z3.If(And(some, u == r), I(1), I(0))), (H1['rc'], u), (H1['live'], u)))] + \
        same_on(H0, H1, FIELDS + ('L',), lambda t: sel(H0['live'], t))


class HeapStep(Heap):
    """first_child_or_token, next_sibling_or_token"""
    hw = HeapNew.hw
    balance = True

    def __init__(self, ty, first):
        self.ty, self.first = ty, first

    def args(self, ex, st, f):
        st.H['Q'] = st.H['I']
        assume_card(ex, st)
        t = ex.sym('self')
        if self.ty == 'NodeData':
            return [rp(t)]
        return [ex.alloc(st, element(ex, st, t, 'tag') if self.ty is None else handle(self.ty, t))]

    def who(self, cx):
        return rec(cx.a[0] if self.ty == 'NodeData' else S(cx).arg(0))

    def pre(self, cx):
        t, H = self.who(cx), cx.st.H
        return hinv(cx, H) + [('the handle denotes a live record and is counted', And(t != 0, sel(H['live'], t), ext(H, t) >= 1))] + \
            ([('it is a node', isnode(sel(H['G'], t)))] if self.ty == 'SyntaxNode' else []) + \
            ([('its tag fits', tagged(cx.ex.load(cx.st, cx.a[0]), sel(H['G'], t)))] if self.ty is None else [])

    def fresh_ret(self, cx):
        return opt_element(cx.ex, cx.st, 'next')

    def effect(self, cx):
        super().effect(cx)
        if cx.calling:
            assume_card(cx.ex, cx.st)

    def post(self, cx):
        (H0, H1), t = self.H(cx), self.who(cx)
        s = lambda f, x: sel(H0[f], x)
        p, i = (t, I(0)) if self.first else (s('P', t), s('I', t) + 1)
        some, pv = opt(cx.ret)
        r = rec(pv) if pv is not None else I(0)
        return [('there is one exactly if the parent has a child at the position', B(some) == And(p != 0, i < gn(s('G', p))))] + \
            ([] if pv is None else [('it is the child at the position', Implies(some, And(r != 0, sel(H1['P'], r) == p, sel(H1['I'], r) == i, sel(H1['G'], r) == ch(s('G', p), i),
                                                                                         sel(H1['M'], r) == s('M', p), tagged(pv, sel(H1['G'], r)))))]) + \
            handed_out(H0, H1, some, r) + hinv(cx, H1)


def tagged(e, g):
    return e.is_(0) == isnode(g)


reg(SN_ + '::first_child_or_token', HeapStep('SyntaxNode', True), 'P11 P12 P16')
reg('NodeData::next_sibling_or_token', HeapStep('NodeData', False), 'P11 P12 P16')
reg(SN_ + '::next_sibling_or_token', HeapStep('SyntaxNode', False), 'P11 P12 P16')
reg(ST_ + '::next_sibling_or_token', HeapStep('SyntaxToken', False), 'P11 P12 P16')
reg('NodeOrToken<%s, %s>::next_sibling_or_token' % (SN_, ST_), HeapStep(None, False), 'P11 P12 P16')


# ------------------------------------------------------------------ splice_children
def child_edits():
    """what _removed says about the children (the verified contract of GreenNodeData::remove_child)"""
    r, g, i, k = z3.Ints('r~ g~ i~ k~')
    return [z3.ForAll([r, g, i], Implies(_removed(r, g, i), gn(r) == gn(g) - 1), patterns=[_removed(r, g, i)]),
            z3.ForAll([r, g, i, k], Implies(And(_removed(r, g, i), 0 <= k, k < gn(g) - 1), ch(r, k) == z3.If(k < i, ch(g, k), ch(g, k + 1))),
                      patterns=[z3.MultiPattern(_removed(r, g, i), ch(r, k))])]


class Splice(Heap):
    """the children in the range are detached one by one, then each item is attached where the previous one ended"""
    on_panic = panic_leaves(False)
    hw = tuple(SORT)
    chunks = 7
    balance = True

    def args(self, ex, st, f):
        st.H['Q'] = st.H['I']
        st.gh['X'] = True
        assume_card(ex, st)
        st.add(*child_edits())
        u, = qv()
        st.add(fa([u], Not(sel(st.H['X'], u)), (st.H['X'], u)))     # the ghost set is not needed while deleting
        t, a, b = ex.sym('self'), ex.sym('start'), ex.sym('end')
        st.add(gok(sel(st.H['G'], t)) == gfacts(sel(st.H['G'], t)))
        st.add(a >= 0, b >= 0)
        return [ex.alloc(st, handle('SyntaxNode', t)), Agg('Range', [a, b], ['start', 'end']), Agg('Items*', [I(0), t], ['k', 'self'])]

    def who(self, cx):
        return rec(S(cx).arg(0))

    def pre(self, cx):
        t, H = self.who(cx), cx.st.H
        return hinv(cx, H) + [('the handle denotes a live node and is counted', And(t != 0, sel(H['live'], t), ext(H, t) >= 1, isnode(sel(H['G'], t))))]

    panics_state = True

    def panics(self, cx, msg, s=None):
        it = s.gh.get('item') if s is not None else None
        # an item of an immutable tree, or one that cannot be attached (the contract of attach_child says when)
        item = B(False) if it is None else B(True) if 'attach_child' in str(msg) else Not(sel(it[1]['M'], it[0]))
        return Or(item, Not(sel(cx.st0.H['M'], self.who(cx))))

    def post(self, cx):
        (H0, H1), t = self.H(cx), self.who(cx)
        return [('panics when the tree is immutable', sel(H0['M'], t)), ('the node survives', And(sel(H1['live'], t), ext(H1, t) >= 1))] + hinv(cx, H1)


class DeleteInv:
    """the first k children were visited, those of the range among them are gone"""

    def parts(self, c):
        e = c.ex.entry_state
        t = rec(c.ex.load(c.st, c.param(0)))
        r = c.param(1)
        a, b = r.f[0], r.f[1]
        it = c.get('iter', 0)
        k = it.f[1]
        m = z3.If(b < k, b, k)
        d = z3.If(m > a, m - a, I(0))
        return e.H, c.st.H, t, a, b, it.f[0], k, m, d

    def inv(self, c):
        H0, H, t, a, b, it, k, m, d = self.parts(c)
        g0, g = sel(H0['G'], t), sel(H['G'], t)
        ps, pv = opt(it.f[1])
        u, j = qv(2)
        s = lambda f, x=u: sel(H[f], x)
        s0 = lambda f, x=u: sel(H0[f], x)
        x = rec(pv) if pv is not None else I(0)
        nx = And(ps, u == x)
        out = [('the iterator walks over the node', rec(it.f[0]) == t),
               ('the children left', And(0 <= k, k <= gn(g0), gn(g) == gn(g0) - d, isnode(g), kind(g) == kind(g0),
                                         z3.ForAll([j], Implies(And(0 <= j, j < gn(g)), ch(g, j) == ch(g0, z3.If(j < a, j, j + d))), patterns=[ch(g, j)]))),
               ('the node is live and mutable', And(t != 0, s('live', t), s('M', t), s0('M', t), s('live', t), ext(H, t) >= 2)),
               ('the iterator has started', B(it.f[2]) == (k > 0)),
               ('after the last child it is at the end', Implies(k > 0, B(ps) == (k < gn(g0)))),
               ('before the first it holds nothing', Implies(k == 0, Not(ps)))]
        if pv is not None:
            out.append(('the next element is the next child', Implies(ps, And(x != 0, s('live', x), s('P', x) == t, s('L', x) == t, s('M', x), s('I', x) == k - d, tagged(pv, s('G', x)),
                                                                             ext(H, x) >= 1))))
        gone = And(a <= s0('I'), s0('I') < m)
        out += [('of the elements held outside exactly the children of the range visited are detached',
                 fa([u], Implies(And(s0('live'), ext(H0, u) >= 1), And(s('P') == z3.If(And(s0('P') == t, gone), I(0), s0('P')),
                                                                s('I') == z3.If(s0('P') != t, s0('I'), z3.If(s0('I') >= m, s0('I') - d, z3.If(gone, a, s0('I')))))),
                    (H['P'], u), (H['I'], u))),
                ('immutable elements held outside keep their green element',
                 fa([u], Implies(And(s0('live'), ext(H0, u) >= 1, Not(s0('M'))), s('G') == s0('G')), (H['G'], u))),
                ('mutability and stored offsets stay', fa([u], Implies(And(s0('live'), ext(H0, u) >= 1), And(s('M') == s0('M'), s('O') == s0('O'))), (H['M'], u), (H['O'], u))),
                ('no outside reference is lost', fa([u], Implies(And(s0('live'), ext(H0, u) >= 1), s('live')), (H['live'], u))),
                ('outside references: one to the node and one to the next element are held here',
                 fa([u], Implies(s('live'), ext(H, u) == z3.If(s0('live'), ext(H0, u), I(0)) + z3.If(u == t, I(1), I(0)) + z3.If(nx, I(1), I(0))),
                    (H['rc'], u), (H['live'], u)))]
        return out + [('heap: ' + n, g) for n, g in heap_inv(H)]

    def havoc(self, c):
        ex, st = c.ex, c.st
        H0, H, t, a, b, it, k, m, d = self.parts(c)
        k = ex.sym('k')
        el = opt_element(ex, st, 'pending')
        f = ex.sym('started', 'bool')
        c.set('iter', Agg('Enumerate*', [Agg(it.ty, [it.f[0], el, f], it.names), k], ['iter', 'count']), 0)
        havoc(ex, st, *[f for f in SORT if f != 'X'])
        assume_card(ex, st)


class InsertInv:
    """each iteration attaches one item, at the start of the range plus the number of items before"""

    def parts(self, c):
        t = rec(c.ex.load(c.st, c.param(0)))
        return c.st.H, t, c.param(1).f[0], c.get('index'), c.get('iter', 1).f[0]

    def inv(self, c):
        H, t, a, i, k = self.parts(c)
        return [('the position of the next item', And(i == a + k, k >= 0)),
                ('the node is live, mutable and referenced', And(t != 0, sel(H['live'], t), sel(H['M'], t), ext(H, t) >= 1, isnode(sel(H['G'], t))))] + \
            [('heap: ' + n, g) for n, g in heap_inv(H)]

    def havoc(self, c):
        ex, st = c.ex, c.st
        t = rec(ex.load(st, c.param(0)))
        k, i = ex.sym('k'), ex.sym('index')
        c.set('index', i)
        c.set('iter', Agg('Items*', [k, t], ['k', 'self']), 1)
        havoc(ex, st, *[f for f in SORT if f not in ('M', 'O')])
        assume_card(ex, st)

    def step(self, c):
        H, t, a, i, k = self.parts(c)
        item, H0 = c.st.gh['item']
        for n, g in HANDLE_ATTACH.effects(H0, c.st.gh.get('mid', H0), H, t, a + k - 1, item):
            c.ex.oblige(c.st, 'cursor::SyntaxNode::splice_children: an iteration attaches the item at its position: ' + n, g, 'post')


reg(SN_ + '::splice_children', Splice(), 'P11 P12 P13 P16 P22')


def install(world):
    if isinstance(world, HeapWorld):
        world.invs[('sll::link', 0)] = LinkInv()
        world.invs[('cursor::free', 0)] = FreeInv()
        world.invs[(SN_ + '::splice_children', 0)] = DeleteInv()
        world.invs[(SN_ + '::splice_children', 1)] = InsertInv()
        world.invs[('sll::adjust', 0)] = AdjustInv()
        world.invs[('NodeData::respine', 0)] = RespineInv()

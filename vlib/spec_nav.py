"""Navigation layer: P05 (positions), P06 (children and siblings)."""
from core import *
from exec import *
from exec import I, B, And, Or, Implies, Not
import world as W
from world import ch, rel, isnode, kind, glen, gn


def is_child(s, r, t, i):
    return And(s.rn(r).P == t, s.rn(r).I == i)


@contract('NodeData::new', 'P05 P16')
class NodeDataNew(Contract):
    trusted_here = True
    by = ('heap:NodeData::new', 'lemma:records of a heap that satisfies the heap invariant are valid')
    heapmode = True

    def parts(self, cx):
        s = S(cx)
        parent, index, offset, green, mutable = cx.a
        ps, pv = opt(parent)
        p = rec(pv) if pv is not None else z3.IntVal(0)
        g = green_id(green)
        return s, ps, p, index, offset, green, g, mutable

    def pre(self, cx):
        s, ps, p, index, offset, green, g, mutable = self.parts(cx)
        pr = s.r(p)
        return [
            ('the green element is the parent\'s child at this index', Implies(ps, And(isnode(pr.G), index >= 0, index < gn(pr.G), g == ch(pr.G, index)))),
            ('mutability is inherited', Implies(ps, mutable == pr.M)),
            ('the offset is the child\'s absolute position', Implies(And(ps, Not(mutable)), offset == pr.A + rel(pr.G, index))),
            ('a root starts at offset and index 0', Implies(Not(ps), And(index == 0, offset == 0))),
            ('node/token tag matches the green element', (I(green.d) == 0) == isnode(g)),
        ]

    def fresh_ret(self, cx):
        r = cx.ex.sym('r')
        return rp_(r)

    def effect(self, cx):
        s, ps, p, index, offset, green, g, mutable = self.parts(cx)
        r = cx.ret.base[1]
        cx.st.bal.append((True, 'red', r, +1))
        cx.st.bal.append((Not(ps), 'green', g, -1))

    def post(self, cx):
        s, ps, p, index, offset, green, g, mutable = self.parts(cx)
        r = cx.ret.base[1]
        q = s.rn(r)
        return [('the record is attached at this position', And(W.valid(cx.st, r), q.G == g, q.M == mutable,
                 q.P == z3.If(ps, p, z3.IntVal(0)), q.I == index))]


def rp_(t):
    return Ptr(('rec', t))


def green_id(v):
    """green element inside a cursor::Green / NodeOrToken<&..> value"""
    ts = [(i, v.vs[i][0].base[1]) for i in sorted(v.vs)]
    return ts[0][1] if len(ts) == 1 else z3.If(v.is_(0), ts[0][1], ts[1][1])


@contract('NodeData::inc_rc', 'P16')
class IncRc(Contract):
    heapmode = True
    balance = False
    rc_exact = True
    writes = ('rc',)

    def pre(self, cx):
        return []

    def effect(self, cx):
        cx.st.bal.append((True, 'red', rec(cx.a[0]), +1))

    def post(self, cx):
        if cx.calling:
            return []
        t = rec(cx.a[0])
        return [('the counter goes up by one', W.h(cx.st, 'rc', t) == W.h(cx.st0, 'rc', t) + 1),
                ('no other record changes', cx.st.H['rc'] == z3.Store(cx.st0.H['rc'], t, W.h(cx.st0, 'rc', t) + 1))]


@contract('NodeData::dec_rc', 'P16')
class DecRc(Contract):
    heapmode = True
    balance = False
    rc_exact = True
    writes = ('rc',)

    def pre(self, cx):
        return [('the counter is not zero', W.h(cx.st, 'rc', rec(cx.a[0])) >= 1)]

    def effect(self, cx):
        cx.st.bal.append((True, 'red', rec(cx.a[0]), -1))
        # a record whose counter reached zero must be handed to free
        cx.st.bal.append((cx.ret, 'unreferenced record', rec(cx.a[0]), +1))

    def post(self, cx):
        t = rec(cx.a[0])
        out = [('true iff the counter reached zero', cx.ret == (W.h(cx.st0, 'rc', t) == 1))]
        if cx.calling:
            return out
        return out + [('the counter goes down by one, no other record changes',
                       cx.st.H['rc'] == z3.Store(cx.st0.H['rc'], t, W.h(cx.st0, 'rc', t) - 1))]


@contract('cursor::free', 'P16')
class Free(Contract):
    trusted_here = True
    by = ('heap:cursor::free',)
    heapmode = True

    def pre(self, cx):
        return [('only a record whose counter is zero is freed', W.h(cx.st, 'rc', rec(cx.a[0])) == 0)]

    def effect(self, cx):
        cx.st.bal.append((True, 'unreferenced record', rec(cx.a[0]), -1))
        cx.ex.W.havoc_rc(cx.ex, cx.st)


# ---------------------------------------------------------------- P05
class Getter(Contract):
    def __init__(self, name=None, f=None):
        self.name, self.fn = name, f

    def post(self, cx):
        return [(self.name, self.fn(S(cx), rec(S(cx).arg(0)), cx.ret))]


def getter(key, props, name, fn, **kw):
    o = Getter(name, fn)
    o.key, o.props = key, tuple(props.split())
    for k, v in kw.items():
        setattr(o, k, v)
    CONTRACTS[key] = o


def parent_post(s, t, ret):
    return opt_post(ret, s.r(t).P == 0, lambda p: And(s.r(t).P != 0, rec(p) == s.r(t).P))


getter('NodeData::parent', 'P05 P06', 'the parent record', parent_post, balance=False)
getter('NodeData::parent_node', 'P05 P06', 'a handle to the parent', parent_post, rc_exact=True)
getter('NodeData::index', 'P05', 'the index among the siblings', lambda s, t, r: r == s.r(t).I)
getter('NodeData::offset', 'P05', 'the sum of the relative offsets up to the root', lambda s, t, r: r == s.r(t).A)
getter('NodeData::text_range', 'P05', '[offset, offset + green text length)',
       lambda s, t, r: And(r.f[0] == s.r(t).A, r.f[1] == s.r(t).A + glen(s.r(t).G)))
getter('NodeData::kind', 'P05', 'the green kind', lambda s, t, r: r.f[0] == kind(s.r(t).G))
getter('NodeData::green', 'P05', 'the green element', lambda s, t, r: And(green_id(r) == s.r(t).G, r.is_(0) == isnode(s.r(t).G)))


@contract('NodeData::offset_mut', 'P05')
class OffsetMut(Contract):
    def post(self, cx):
        s = S(cx)
        t = rec(s.arg(0))
        return [('the sum of the relative offsets up to the root', cx.ret == s.r(t).A)]


class OffsetInv:
    def inv(self, c):
        t = rec(c.param(0))
        n = rec(c.get('node'))
        r = lambda x: W.Rec(c.st, x)
        return [('res + A(node) = A(self)', And(W.valid(c.st, n), c.get('res') + r(n).A == r(t).A, c.get('res') >= 0))]

    def havoc(self, c):
        n = c.ex.sym('node')
        c.set('node', rp_(n))
        x = c.ex.sym('res')
        c.set('res', x)


class Root(Contract):
    def __init__(self, mut):
        self.mut = mut

    def pre(self, cx):
        return []

    def post(self, cx):
        s = S(cx)
        r = s.rn(rec(cx.ret))
        return [('a root over the given green node', And(r.P == 0, r.G == cx.a[0].f[0].base[1], r.M == self.mut, r.A == 0, r.I == 0))]


for _k, _m in (('cursor::SyntaxNode::new_root', False), ('cursor::SyntaxNode::new_root_mut', True)):
    o = Root(_m)
    o.key, o.props = _k, ('P05', 'P13')
    CONTRACTS[_k] = o


@contract('cursor::SyntaxNode::new_child', 'P05 P06')
class NewChildNode(Contract):
    def parts(self, cx):
        s = S(cx)
        g = cx.a[0].base[1]
        p = rec(cx.a[1])
        return s, g, p, cx.a[2], cx.a[3]

    def pre(self, cx):
        s, g, p, i, off = self.parts(cx)
        return [('the parent is a node', isnode(s.r(p).G)),
                ('index in bounds', And(i >= 0, i < gn(s.r(p).G))),
                ('the green element is the child at that index', g == ch(s.r(p).G, i)),
                ('the offset is absolute', Implies(Not(s.r(p).M), off == s.r(p).A + rel(s.r(p).G, i)))]

    def post(self, cx):
        s, g, p, i, off = self.parts(cx)
        return [('child i of the parent', And(is_child(s, rec(cx.ret), p, i), s.rn(rec(cx.ret)).G == g))]


@contract('cursor::SyntaxToken::new', 'P05 P06')
class NewToken(NewChildNode):
    pass


@contract('NodeOrToken<cursor::SyntaxNode, cursor::SyntaxToken>::new', 'P05 P06')
class NewElement(Contract):
    def parts(self, cx):
        s = S(cx)
        return s, green_id(cx.a[0]), rec(cx.a[1]), cx.a[2], cx.a[3]

    pre = NewChildNode.pre
    post = NewChildNode.post


def rng(r, s, t):
    return And(r.f[0] == s.r(t).A, r.f[1] == s.r(t).A + glen(s.r(t).G))


for T in ('cursor::SyntaxNode', 'cursor::SyntaxToken', 'NodeOrToken<cursor::SyntaxNode, cursor::SyntaxToken>'):
    getter(T + '::text_range', 'P05', '[offset, offset + text length)', lambda s, t, r: rng(r, s, t))
    getter(T + '::kind', 'P05', 'the green kind', lambda s, t, r: r.f[0] == kind(s.r(t).G))
    getter(T + '::index', 'P05', 'the index among the siblings', lambda s, t, r: r == s.r(t).I)
    getter(T + '::parent', 'P05 P06', 'the parent', parent_post, rc_exact=True)
for T in ('cursor::SyntaxNode',):
    getter(T + '::offset', 'P05', 'absolute offset', lambda s, t, r: r == s.r(t).A)
    getter(T + '::green_ref', 'P05', 'the green node', lambda s, t, r: r.base[1] == s.r(t).G)
    getter(T + '::is_mutable', 'P05 P13', 'mutability', lambda s, t, r: r == s.r(t).M)
getter('<cursor::SyntaxNode as Clone>::clone', 'P16 P06', 'the same record', lambda s, t, r: rec(r) == t, rc_exact=True)
getter('<cursor::SyntaxToken as Clone>::clone', 'P16 P06', 'the same record', lambda s, t, r: rec(r) == t, rc_exact=True)


# ---------------------------------------------------------------- P06
def sib_some(s, r, p, cond):
    """r is child j of p with cond(j)"""
    q = s.rn(r)
    return And(q.P == p, q.I >= 0, q.I < gn(s.r(p).G), cond(q.I))


class ChildSearch(Contract):
    """first/last child satisfying a filter, in the range (after the start sibling)"""

    def __init__(self, scope, direction, nodes_only, matcher=None, nth=None):
        self.scope, self.dir, self.nodes, self.matcher = scope, direction, nodes_only, matcher

    def post(self, cx):
        s = S(cx)
        t = rec(s.arg(0))
        if self.scope == 'children':
            p = t
            g = s.r(p).G
            lo, hi = z3.IntVal(0), gn(g)
            exists = z3.BoolVal(True)
        else:
            p = s.r(t).P
            g = s.r(p).G
            exists = p != 0
            if self.dir == 'fwd':
                lo, hi = s.r(t).I + 1, gn(g)
            else:
                lo, hi = z3.IntVal(0), s.r(t).I
        ok = lambda j: And(isnode(ch(g, j)) if self.nodes else True,
                           pred(cx, cx.a[1], kind(ch(g, j))) if self.matcher else True)
        none_in = lambda a, b: z3.BoolVal(True) if z3.is_true(z3.simplify(a >= b)) else forall_child(g, lambda j: Not(ok(j)), a, b)

        def some(v):
            q = s.rn(rec(v))
            j = q.I
            first = none_in(lo, j) if self.dir == 'fwd' else none_in(j + 1, hi)
            return And(exists, q.P == p, q.G == ch(g, j), j >= lo, j < hi, ok(j), first)
        return [(self.title(), opt_post(cx.ret, Or(Not(exists), none_in(lo, hi)), some))]

    def title(self):
        what = 'child node' if self.nodes else 'child'
        if self.scope != 'children':
            what = 'sibling node' if self.nodes else 'sibling'
        return '%s %s%s%s, None iff there is none' % (
            {'fwd': 'first' if self.scope == 'children' else 'next', 'bwd': 'last' if self.scope == 'children' else 'previous'}[self.dir],
            what, ' matching the predicate' if self.matcher else '', '')


def cs(key, *a, **kw):
    o = ChildSearch(*a, **kw)
    o.key, o.props = key, ('P06',)
    CONTRACTS[key] = o


ND, SN, ST, SE = 'NodeData', 'cursor::SyntaxNode', 'cursor::SyntaxToken', 'NodeOrToken<cursor::SyntaxNode, cursor::SyntaxToken>'
cs(SN + '::first_child', 'children', 'fwd', True)
cs(SN + '::last_child', 'children', 'bwd', True)
cs(SN + '::first_child_by_kind', 'children', 'fwd', True, matcher=True)
cs(SN + '::first_child_or_token', 'children', 'fwd', False)
cs(SN + '::last_child_or_token', 'children', 'bwd', False)
cs(SN + '::first_child_or_token_by_kind', 'children', 'fwd', False, matcher=True)
for T in (ND, SN):
    cs(T + '::next_sibling', 'sib', 'fwd', True)
    cs(T + '::prev_sibling', 'sib', 'bwd', True)
    cs(T + '::next_sibling_by_kind', 'sib', 'fwd', True, matcher=True)
for T in (ND, SN, ST, SE):
    cs(T + '::next_sibling_or_token', 'sib', 'fwd', False)
    cs(T + '::prev_sibling_or_token', 'sib', 'bwd', False)
for T in (ND, SN, ST):
    cs(T + '::next_sibling_or_token_by_kind', 'sib', 'fwd', False, matcher=True)


class ToNext(ChildSearch):
    """self is consumed; when it is the only handle its record is reused in place.
    Callers see a fresh record: nobody else can name the reused one (counter 1)."""
    writes = ('I', 'O', 'G')

    def exit(self, cx):
        # ghost code: the reused record moves to its new position
        s = S(cx)
        t = rec(s.arg(0))
        st, H0 = cx.st, cx.st0.H
        if st.H['I'] is H0['I'] and st.H['G'] is H0['G']:
            return
        p = W.h(cx.st0, 'P', t)
        g = W.h(cx.st0, 'G', p)
        i = W.h(st, 'I', t)
        cx.ex.oblige(st, '%s: only an unshared immutable record is reused' % self.key,
                     And(W.h(cx.st0, 'rc', t) == 1, Not(W.h(cx.st0, 'M', t)),
                         *[st.H[f] == z3.Store(H0[f], t, W.h(st, f, t)) for f in self.writes]))
        st.add(W.cfacts(g, i))
        for f, v in (('A', W.h(st, 'A', p) + rel(g, i)), ('T', W.h(st, 'T', p) + W.ptok(g, i)),
                     ('N', W.h(st, 'N', p) + 1 + 2 * W.pnsz(g, i)), ('E', W.h(st, 'E', p) + 1 + 2 * W.pesz(g, i))):
            cx.ex.W.hset(st, f, t, v)



for T, nodes, nm in ((SN, True, 'to_next_sibling'), (SE, False, 'to_next_sibling_or_token')):
    o = ToNext('sib', 'fwd', nodes)
    o.key, o.props = T + '::' + nm, ('P06',)
    o.frame = False
    CONTRACTS[o.key] = o


def install(world):
    world.invs[('NodeData::offset_mut', 0)] = OffsetInv()

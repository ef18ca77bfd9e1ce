"""P07: preorder walks.  N/E are the document-order ranks of the enter events
(nodes only / nodes and tokens); an element entered at rank e is left at rank
e + 2*size - 1.  The walk produces the events of the start element's interval
one rank at a time, so every element is entered and left exactly once, in
document order, and nothing outside the interval is visited."""
from core import *
from exec import *
from exec import I, B, And, Or, Implies, Not
import world as W
import models
from models import It
from world import ch, rel, isnode, kind, glen, gn, pnsz, pesz, nsz, esz
from spec_nav import SN, ST, SE, ND
from spec_iter import reg, upto

# sub(s, n): n lies in the subtree of s.  Definition by recursion over parents.
sub = z3.Function('sub', z3.IntSort(), z3.IntSort(), z3.BoolSort())


def same_place(st, a, b):
    x, y = W.Rec(st, a), W.Rec(st, b)
    return And(x.G == y.G, x.A == y.A, x.N == y.N, x.E == y.E, x.T == y.T, x.D == y.D, x.root == y.root)


def sub_def(st, s, n):
    p = W.h(st, 'P', n)
    return sub(s, n) == Or(same_place(st, s, n), And(p != 0, sub(s, p)))


def inside(st, s, n):
    """lemma sub-inside: the interval of n is contained in that of s"""
    a, b = W.Rec(st, s), W.Rec(st, n)
    return And(a.root == b.root,
               a.N <= b.N, b.N + 2 * nsz(b.G) <= a.N + 2 * nsz(a.G),
               a.E <= b.E, b.E + 2 * esz(b.G) <= a.E + 2 * esz(a.G),
               a.T <= b.T, b.T + W.ntok(b.G) <= a.T + W.ntok(a.G),
               a.D <= b.D, Implies(a.D < b.D, a.E < b.E),
               a.A <= b.A, b.A + glen(b.G) <= a.A + glen(a.G))


def sub_facts(st, s, n):
    return [sub_def(st, s, n), Implies(sub(s, n), inside(st, s, n))]


@lemma('sub_inside', 'P07 P08 P09')
def _l1():
    st = State()
    W.init_heap(st)
    s, n = z3.Ints('s n')
    p = W.h(st, 'P', n)
    hyp = [W.valid(st, s), W.valid(st, n), Implies(p != 0, W.valid(st, p)), sub_def(st, s, n), sub(s, n),
           Implies(And(p != 0, sub(s, p)), inside(st, s, p))]
    return [('subtree intervals nest (induction step over the parent chain)', hyp, inside(st, s, n))]


def gap(g, a, b, f, P):
    """lemma: without elements of the kind counted by P in [a,b) the prefix count does not change"""
    return Implies(And(a >= 0, a <= b, b <= gn(g), isnode(g), f(a, b)), P(g, a) == P(g, b))


def nonodes(g, a, b):
    return forall(lambda j: Not(isnode(ch(g, j))), a, b)


@lemma('gap_nodes', 'P07')
def _l2():
    g, a, b = z3.Ints('g a b')
    hyp = [W.gfacts(g), W.cfacts(g, b), isnode(g), 0 <= a, a <= b, b < gn(g), nonodes(g, a, b + 1), Not(isnode(ch(g, b))),
           pnsz(g, a) == pnsz(g, b)]
    return [('prefix node count is constant over tokens (induction step)', hyp, pnsz(g, a) == pnsz(g, b + 1)),
            ('base', [], pnsz(g, a) == pnsz(g, a))]


class Ev:
    """a pending event: Option<WalkEvent<el>>"""

    def __init__(self, st, o, tok):
        self.st, self.tok = st, tok
        self.some, v = opt(o)
        self.v = v
        if v is not None:
            self.enter = v.is_(0)
            ts = [(i, rec(v.vs[i][0])) for i in sorted(v.vs)]
            self.t = ts[0][1] if len(ts) == 1 else z3.If(self.enter, ts[0][1], ts[1][1])

    def end(self):
        return W.h(self.st, 'A', self.t) + glen(W.h(self.st, 'G', self.t))

    def pos(self):
        return z3.If(self.enter, W.h(self.st, 'A', self.t), self.end())

    def depth(self):
        """the number of elements that are open before the event"""
        return W.h(self.st, 'D', self.t) + z3.If(self.enter, I(0), I(1))

    def rank(self):
        return rank(self.st, self.enter, self.t, self.tok)


def rank(st, enter, t, tok):
    r = W.Rec(st, t)
    at, size = (r.E, esz(r.G)) if tok else (r.N, nsz(r.G))
    return z3.If(enter, at, at + 2 * size - 1)


class Pre:
    """preorder walk value: start, pending event, skip flag"""

    def __init__(self, st, v, tok):
        self.start = rec(v.f[0])
        self.ev = Ev(st, v.f[1], tok)
        self.skip = v.f[2]
        e = self.ev
        self.inv = Implies(e.some, And(sub(self.start, e.t), True if tok else isnode(W.h(st, 'G', e.t)))) if e.v is not None else z3.BoolVal(True)


class PreNext(Contract):
    modifies = (0,)

    def __init__(self, tok):
        self.tok = tok

    def pre(self, cx):
        o = Pre(cx.st, cx.old(cx.a[0]), self.tok)
        st = cx.st
        e = o.ev
        p = W.h(st, 'P', e.t)
        for f in sub_facts(st, o.start, e.t) + sub_facts(st, o.start, p):
            if not cx.calling:
                st.add(f)
        return [('the pending event is in the subtree of the start', o.inv),
                ('skipping is only asked for right after entering an element',
                 Implies(And(o.skip, e.some, e.enter), And(p != 0, sub(o.start, p))))]

    def post(self, cx):
        tok = self.tok
        o, n = Pre(cx.st0, cx.old(cx.a[0]), tok), Pre(cx.st, cx.new(cx.a[0]), tok)
        st = cx.st
        e = o.ev
        p = W.h(cx.st0, 'P', e.t)
        # the event to yield: with skip, the leave event of the element just entered
        enter = And(e.enter, Not(o.skip))
        t = z3.If(And(o.skip, e.enter), p, e.t)
        want = rank(cx.st0, enter, t, tok)
        r = Ev(st, cx.ret, tok)
        s = W.Rec(cx.st0, o.start)
        last = (s.E + 2 * esz(s.G) if tok else s.N + 2 * nsz(s.G)) - 1
        ne = n.ev
        if ne.v is None:
            nxt = Implies(e.some, want == last)
        else:
            nxt = And(ne.some == And(e.some, want != last),
                      Implies(ne.some, And(ne.rank() == want + 1, W.h(st, 'root', ne.t) == W.h(st, 'root', o.start))))
        y = r.some == e.some
        if r.v is not None:
            y = And(y, Implies(r.some, And(r.t == t, r.enter == enter)))
        out = []
        if tok:
            # the text position: where an element starts when it is entered, where it ends when it is left
            q = Implies(Not(e.some), True)
            here = z3.If(e.enter, W.h(cx.st0, 'A', e.t) + z3.If(isnode(W.h(cx.st0, 'G', e.t)), I(0), glen(W.h(cx.st0, 'G', e.t))), e.end())
            if ne.v is not None:
                q = And(q, Implies(And(e.some, ne.some), ne.pos() == here))
            q = And(q, Implies(And(e.some, Not(ne.some)), s.A + glen(s.G) == here))
            # the depth: one more inside an element that was entered
            down = W.h(cx.st0, 'D', e.t) + z3.If(e.enter, I(1), I(0))
            d = Implies(And(e.some, Not(ne.some)), s.D == down)
            if ne.v is not None:
                d = And(d, Implies(And(e.some, ne.some), ne.depth() == down))
            out = [('the depth grows by one when an element is entered and shrinks when it is left', Implies(Not(o.skip), d)),
                   ('the walk moves over the text of the token entered and nothing else', Implies(Not(o.skip), q))]
        return out + [('yields the pending event (the matching leave event after a skip)', y),
                ('the following event is the next one in document order; none after leaving the start', nxt),
                ('the walk stays inside the subtree of its start', And(n.inv, n.start == o.start, Not(n.skip)))]

    def hints(self, cx):
        o = Pre(cx.st0, cx.old(cx.a[0]), self.tok)
        n = Pre(cx.st, cx.new(cx.a[0]), self.tok)
        st = cx.st
        t = o.ev.t
        p = W.h(st, 'P', t)
        out = sub_facts(st, o.start, t) + sub_facts(st, o.start, p)
        if n.ev.v is not None:
            q = n.ev.t
            qp = W.h(st, 'P', q)
            out += sub_facts(st, o.start, q) + sub_facts(st, o.start, qp)
            if not self.tok:
                # prefix counts over stretches without nodes
                g = W.h(st, 'G', t)
                out.append(gap(g, z3.IntVal(0), W.h(st, 'I', q), lambda a, b: nonodes(g, a, b), pnsz))
                for x in (t, p):
                    gp = W.h(st, 'G', W.h(st, 'P', x))
                    i = W.h(st, 'I', x)
                    out.append(gap(gp, i + 1, W.h(st, 'I', q), lambda a, b, gp=gp: nonodes(gp, a, b), pnsz))
        if not self.tok:
            g = W.h(st, 'G', t)
            out.append(gap(g, z3.IntVal(0), gn(g), lambda a, b: nonodes(g, a, b), pnsz))
            for x in (t, p):
                gp = W.h(st, 'G', W.h(st, 'P', x))
                i = W.h(st, 'I', x)
                out.append(gap(gp, i + 1, gn(gp), lambda a, b, gp=gp: nonodes(gp, a, b), pnsz))
        return out


class DoSkip(Contract):
    modifies = (0,)
    inline = True

    def __init__(self, tok):
        self.tok = tok

    def pre(self, cx):
        e = Pre(cx.st, cx.old(cx.a[0]), self.tok).ev
        return [('a pending enter event is the first child of the element just entered',
                 Implies(And(e.some, e.enter), W.h(cx.st, 'P', e.t) != 0))]

    def post(self, cx):
        o, n = Pre(cx.st0, cx.old(cx.a[0]), self.tok), Pre(cx.st, cx.new(cx.a[0]), self.tok)
        e, ne = o.ev, n.ev
        c = ne.some == e.some
        if ne.v is not None:
            c = And(c, Implies(e.some, And(Not(ne.enter), ne.t == z3.If(e.enter, W.h(cx.st0, 'P', e.t), e.t))))
        return [('the pending event becomes the leave event of the enclosing element', c),
                ('nothing else changes', And(n.start == o.start, n.skip == o.skip))]


class MakeWalk(Contract):
    def __init__(self, tok):
        self.tok = tok

    def post(self, cx):
        t = rec(S(cx).arg(0))
        w = Pre(cx.st, cx.ret, self.tok)
        return [('starts with entering the node itself', And(w.start == t, w.ev.some, w.ev.enter, w.ev.t == t, Not(w.skip), w.inv))]

    def hints(self, cx):
        t = rec(S(cx).arg(0))
        return sub_facts(cx.st, t, t)

    def effect(self, cx):
        t = rec(S(cx).arg(0))
        cx.st.add(*sub_facts(cx.st, t, t))


class SetSkip(Contract):
    modifies = (0,)

    def __init__(self, tok):
        self.tok = tok

    def post(self, cx):
        a, b = cx.old(cx.a[0]), cx.new(cx.a[0])
        return [('only requests the skip', And(b.f[2], cx.ex.veq(Agg('()', a.f[:2]), Agg('()', b.f[:2]))))]


for _n, _t in (('Preorder', False), ('PreorderWithTokens', True)):
    reg('<cursor::%s as Iterator>::next' % _n, PreNext(_t), 'P07')
    reg('cursor::%s::do_skip' % _n, DoSkip(_t), 'P07')
    reg('cursor::%s::new' % _n, MakeWalk(_t), 'P07')
    reg('cursor::%s::skip_subtree' % _n, SetSkip(_t), 'P07')
reg(SN + '::preorder', MakeWalk(False), 'P07')
reg(SN + '::preorder_with_tokens', MakeWalk(True), 'P07')


class Descend(Contract):
    """descendants: the elements of the enter events of the preorder walk"""
    inline = True

    def __init__(self, tok):
        self.tok = tok

    def post(self, cx):
        ex = cx.ex
        it = cx.ret
        if not (isinstance(it, It) and it.k == 'filter_map' and isinstance(it.inner, Agg) and
                it.inner.ty == ('cursor::PreorderWithTokens' if self.tok else 'cursor::Preorder')):
            raise Unsupported('descendants is not a filtered preorder walk')
        t = rec(S(cx).arg(0))
        w = Pre(cx.st, it.inner, self.tok)
        el = SN if not self.tok else 'utility_types::NodeOrToken<cursor::SyntaxNode, cursor::SyntaxToken>'
        s = cx.st.fork()
        s.bal = []
        e = ex.fresh('utility_types::WalkEvent<%s>' % el, s, 'ev')
        base = len(cx.st.pc)
        cs = []
        for s2, o in ex.call_value(s, it.f, [e]):
            models.net_zero(ex, s2, s2.bal + [(g, k, x, +1) for g, k, x in ex.W.handles(e)] +
                            [(g, k, x, -1) for g, k, x in ex.W.handles(o)], 'the filter')
            cs.append(Implies(And(True, *s2.pc[base:]),
                              opt_post(o, Not(e.is_(0)), lambda v: And(e.is_(0), ex.veq(v, e.vs[0][0])))))
        return [('walks the preorder of the node itself', And(w.start == t, w.ev.some, w.ev.enter, w.ev.t == t, Not(w.skip))),
                ('keeps exactly the elements of the enter events', And(*cs))]


reg(SN + '::descendants', Descend(False), 'P07')
reg(SN + '::descendants_with_tokens', Descend(True), 'P07')


# ---------------------------------------------------------------- identity of handles (also P19)
class Key(Contract):
    def post(self, cx):
        t = rec(S(cx).arg(0))
        r = W.Rec(cx.st0, t)
        return [('the green element and the absolute offset', And(cx.ret.f[0].base[1] == r.G, cx.ret.f[1] == r.A))]

    def fresh_ret(self, cx):
        return Agg('()', [Ptr(('gn', cx.ex.sym('key'))), cx.ex.sym('off')])


reg('NodeData::key', Key(), 'P19 P07')


class HandleEq(Contract):
    def post(self, cx):
        s = S(cx)
        a, b = W.Rec(cx.st0, rec(s.arg(0))), W.Rec(cx.st0, rec(s.arg(1)))
        return [('equal iff same green element at the same offset', cx.ret == And(a.G == b.G, a.A == b.A))]


for T in (SN, ST):
    reg('<%s as PartialEq>::eq' % T, HandleEq(), 'P19 P07')

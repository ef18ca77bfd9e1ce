"""P09: lookup by offset and by range."""
from core import *
from exec import *
from exec import I, B, And, Or, Implies, Not
import world as W
import models
from models import It
from world import ch, rel, isnode, kind, glen, gn, ntok
from spec_nav import SN, ST, SE, ND, green_id
from spec_iter import reg, Pos


# ---------------------------------------------------------------- prefix sums are monotone
def mono(g):
    a, b = z3.Ints('mono!a mono!b')
    return z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b, b <= gn(g)), rel(g, a) <= rel(g, b)),
                     patterns=[z3.MultiPattern(rel(g, a), rel(g, b))])


@lemma('mono', 'P02 P09')
def _mono():
    g, a, k = z3.Ints('g a k')
    hyp = [W.gfacts(g), isnode(g), a >= 0, k >= a, k < gn(g)]
    return [('offsets of children are monotone (base)', [W.gfacts(g)], rel(g, a) <= rel(g, a)),
            ('offsets of children are monotone (induction step)', hyp + [rel(g, a) <= rel(g, k), W.cfacts(g, k)], rel(g, a) <= rel(g, k + 1))]


models.MONO[0] = mono


def inside(st, e, n):
    """element e is in the subtree of n"""
    a, b = W.Rec(st, e), W.Rec(st, n)
    return And(a.root == b.root, a.T >= b.T, a.T + ntok(a.G) <= b.T + ntok(b.G),
               a.A >= b.A, a.A + glen(a.G) <= b.A + glen(b.G))


class TokenAtOffset(Contract):
    def __init__(self, element):
        self.element = element

    def range(self, cx, st):
        r = W.Rec(st, rec(S(cx).arg(0)))
        return r.A, r.A + glen(r.G)

    def pre(self, cx):
        if not self.element:
            return []
        s, e = self.range(cx, cx.st)
        return [('only asked for a non-empty element', s < e)]

    def panics(self, cx, msg):
        s, e = self.range(cx, cx.st0)
        return Or(cx.a[1] < s, cx.a[1] > e)

    def post(self, cx):
        me = rec(S(cx).arg(0))
        s, e = self.range(cx, cx.st0)
        o = cx.a[1]
        ret = cx.ret

        def tok(v):
            r = W.Rec(cx.st, rec(v))
            return And(Not(isnode(r.G)), glen(r.G) > 0, inside(cx.st, rec(v), me))
        out = [('the offset lies inside', And(s <= o, o <= e)),
               ('nothing exactly when the text is empty', ret.is_(0) == (s == e))]
        if 1 in ret.vs:
            r = W.Rec(cx.st, rec(ret.vs[1][0]))
            a, b = r.A, r.A + glen(r.G)
            out.append(('a single token: it contains the offset, and no other token touches it',
                        Implies(ret.is_(1), And(tok(ret.vs[1][0]), a <= o, o <= b, Or(a < o, o == s), Or(o < b, o == e)))))
        if 2 in ret.vs:
            l, r = [W.Rec(cx.st, rec(x)) for x in ret.vs[2]]
            out.append(('two tokens: the one ending and the one starting at the offset',
                        Implies(ret.is_(2), And(tok(ret.vs[2][0]), tok(ret.vs[2][1]), l.A + glen(l.G) == o, r.A == o, s < o, o < e))))
        return out


reg(SN + '::token_at_offset', TokenAtOffset(False), 'P09 P22')
reg(SE + '::token_at_offset', TokenAtOffset(True), 'P09')


class OffsetSearch:
    """the three searches of token_at_offset over the children"""

    def havoc(self, cx, st, it):
        if not (isinstance(it, Agg) and it.ty == 'cursor::SyntaxElementChildren'):
            raise Unsupported('the search is not over the children')
        return cx.ex.fresh('cursor::SyntaxElementChildren', st, 'it')

    def inv(self, cx, st, it):
        me = rec(cx.ex.top_args[0] if not (isinstance(cx.ex.top_args[0], Ptr) and isinstance(cx.ex.top_args[0].base, int))
                 else cx.ex.load(cx.entry, cx.ex.top_args[0]))
        o = cx.ex.top_args[1] - W.h(st, 'A', me)
        p = Pos(st, it)
        e = Pos(cx.entry, cx.it0)
        g = p.g
        st.add(W.cfacts(g, p.lo))
        pos = And(p.inv, p.parent == me, p.lo >= 0, p.lo <= gn(g))
        out = [('the iterator is over the children of the node', pos)]
        if cx.n == 0:
            out.append(('no child passed so far touches the offset', Or(rel(g, p.lo) == 0, rel(g, p.lo) < o)))
        else:
            out.append(('only empty children, or children beyond the offset, passed since the last hit',
                        And(rel(g, p.lo) >= rel(g, e.lo), Or(rel(g, p.lo) == rel(g, e.lo), rel(g, e.lo) > o))))
        return out


# ---------------------------------------------------------------- ranges
def contains(g, j, a, b):
    return And(rel(g, j) <= a, b <= rel(g, j + 1))


class GreenAtRange(Contract):
    def post(self, cx):
        g = cx.a[0].base[1]
        a, b = cx.a[1].f

        def some(v):
            i, off, el = v.f
            return And(i >= 0, i < gn(g), off == rel(g, i), green_id(el) == ch(g, i), el.is_(0) == isnode(ch(g, i)), contains(g, i, a, b))
        return [('a child that contains the range; None only if no child does',
                 opt_post(cx.ret, forall(lambda j: Not(contains(g, j, a, b)), 0, gn(g)), some))]

    def hints(self, cx):
        g = cx.a[0].base[1]
        k = z3.Int('hint!k')
        return [mono(g), z3.ForAll([k], W.cfacts(g, k), patterns=[rel(g, k)])]


class ChildAtRange(Contract):
    def panics(self, cx, msg):
        return cx.a[1].f[0] < W.h(cx.st0, 'A', rec(S(cx).arg(0)))

    def post(self, cx):
        me = rec(S(cx).arg(0))
        r = W.Rec(cx.st0, me)
        a, b = cx.a[1].f

        def some(v):
            q = W.Rec(cx.st, rec(v))
            return And(q.P == me, q.G == ch(r.G, q.I), q.A <= a, b <= q.A + glen(q.G))
        return [('the range does not start before the node', a >= r.A),
                ('a child that contains the range; None only if no child does',
                 opt_post(cx.ret, forall(lambda j: Not(contains(r.G, j, a - r.A, b - r.A)), 0, gn(r.G)), some))]


class Covering(Contract):
    def panics(self, cx, msg):
        r = W.Rec(cx.st0, rec(S(cx).arg(0)))
        a, b = cx.a[1].f
        return Not(And(r.A <= a, b <= r.A + glen(r.G)))

    def post(self, cx):
        me = rec(S(cx).arg(0))
        r = W.Rec(cx.st0, me)
        a, b = cx.a[1].f
        e = W.Rec(cx.st, rec(cx.ret))
        return [('the range lies inside the node', And(r.A <= a, b <= r.A + glen(r.G))),
                ('the element is in the subtree and contains the range', And(e.A <= a, b <= e.A + glen(e.G), inside(cx.st, rec(cx.ret), me))),
                ('no child of the element contains the range',
                 Or(Not(isnode(e.G)), forall(lambda j: Not(contains(e.G, j, a - e.A, b - e.A)), 0, gn(e.G))))]


class CoveringInv:
    def inv(self, c):
        me = rec(c.ex.load(c.st, c.param(0)) if isinstance(c.param(0).base, int) else c.param(0))
        e = rec(c.get('res'))
        r = W.Rec(c.st, e)
        a, b = c.param(1).f
        return [('the element is self, or one in its subtree that contains the range',
                 And(inside(c.st, e, me), isnode(r.G) == c.get('res').is_(0), Or(e == me, And(r.A <= a, b <= r.A + glen(r.G)))))]

    def havoc(self, c):
        new = c.ex.fresh('utility_types::NodeOrToken<cursor::SyntaxNode, cursor::SyntaxToken>', c.st, 'res')
        c.set('res', new)


reg('GreenNodeData::child_at_range', GreenAtRange(), 'P09')
reg(SN + '::child_or_token_at_range', ChildAtRange(), 'P09 P22')
reg(SN + '::covering_element', Covering(), 'P09 P22')


def install(world):
    world.searches[SN + '::token_at_offset'] = OffsetSearch()
    world.invs[(SN + '::covering_element', 0)] = CoveringInv()

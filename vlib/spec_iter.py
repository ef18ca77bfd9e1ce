"""P06 (children iterators, sibling and ancestor walks) and P07 (preorder walks)."""
from core import *
from exec import *
from exec import I, B, And, Or, Implies, Not
import world as W
import models
from models import It
from world import ch, rel, isnode, kind, glen, gn, pnsz, pesz, nsz, esz
from spec_util import fn
from spec_nav import SN, ST, SE, ND


# ---------------------------------------------------------------- children iterators
class Pos:
    """abstract view of a children iterator: the not yet yielded children are those with index >= lo"""

    def __init__(self, st, it):
        self.st = st
        self.parent = rec(it.f[0])
        self.next = it.f[1]
        self.init = it.f[2]
        R = lambda t: W.Rec(st, t)
        self.g = R(self.parent).G
        some, v = opt(self.next)
        self.some, self.v = some, v
        if v is None:
            self.lo = z3.If(self.init, gn(self.g), z3.IntVal(0))
            self.inv = z3.BoolVal(True)
        else:
            r = R(rec(v))
            self.lo = z3.If(Not(self.init), z3.IntVal(0),
                            z3.If(Not(some), gn(self.g), z3.If(R(self.parent).M, r.I, r.I + 1)))
            self.inv = And(Implies(Not(self.init), Not(some)), Implies(some, And(r.P == self.parent, self.lo >= 0)))


def upto(nodes, g, f, lo, hi):
    return forall_child(g, lambda j: Not(And(isnode(ch(g, j)) if nodes else True, f(j))), lo, hi)


class ChildrenNext(Contract):
    modifies = (0,)

    def __init__(self, nodes):
        self.nodes = nodes

    def pre(self, cx):
        return [('the iterator is consistent with the (unchanged) tree', Pos(cx.st, cx.old(cx.a[0])).inv)]

    def post(self, cx):
        o, n = Pos(cx.st0, cx.old(cx.a[0])), Pos(cx.st, cx.new(cx.a[0]))
        g = o.g
        H = lambda t: W.Rec(cx.st, t)
        what = 'child node' if self.nodes else 'child'
        any_ = lambda j: True

        def some(v):
            q = H(rec(v))
            return And(q.P == o.parent, q.I >= o.lo, q.G == ch(g, q.I), isnode(q.G) if self.nodes else True,
                       upto(self.nodes, g, any_, o.lo, q.I), n.lo > q.I, upto(self.nodes, g, any_, q.I + 1, n.lo),
                       z3.BoolVal(True) if self.nodes else n.lo == q.I + 1)
        return [('yields the next %s in order, nothing when none is left' % what,
                 opt_post(cx.ret, And(upto(self.nodes, g, any_, o.lo, gn(g)), n.lo == gn(g)), some)),
                ('the iterator stays consistent', And(n.inv, n.parent == o.parent, n.init))]


class Made(Contract):
    def __init__(self, byval):
        self.byval = byval

    def post(self, cx):
        p = Pos(cx.st, cx.ret)
        return [('starts before the first child', And(p.parent == rec(S(cx).arg(0)), Not(p.init), Not(p.some)))]


class ByKind(Contract):
    """children.by_kind(f): continues with the matching ones of the remaining children"""

    def __init__(self, nodes):
        self.nodes = nodes

    def pre(self, cx):
        return [('the iterator is consistent with the (unchanged) tree', Pos(cx.st, cx.a[0]).inv)]

    def post(self, cx):
        o = Pos(cx.st0, cx.a[0])
        g = o.g
        nxt, f = cx.ret.f
        m = lambda j: pred(cx, cx.a[1], kind(ch(g, j)))

        def some(v):
            q = W.Rec(cx.st, rec(v))
            return And(q.P == o.parent, q.I >= o.lo, q.G == ch(g, q.I), isnode(q.G) if self.nodes else True, m(q.I),
                       upto(self.nodes, g, m, o.lo, q.I))
        return [('the first match is the first matching one of the remaining children',
                 opt_post(nxt, upto(self.nodes, g, m, o.lo, gn(g)), some)),
                ('the predicate is kept', cx.ex.veq(f, cx.a[1]))]


class ByKindNext(Contract):
    modifies = (0,)

    def __init__(self, nodes):
        self.nodes = nodes

    def post(self, cx):
        o, n = cx.old(cx.a[0]), cx.new(cx.a[0])
        so, vo = opt(o.f[0])
        t = rec(vo)
        p = W.h(cx.st0, 'P', t)
        g = W.h(cx.st0, 'G', p)
        m = lambda j: pred(cx, o.f[1], kind(ch(g, j)))
        i = W.h(cx.st0, 'I', t)

        def some(v):
            q = W.Rec(cx.st, rec(v))
            return And(so, p != 0, q.P == p, q.I > i, q.G == ch(g, q.I), isnode(q.G) if self.nodes else True, m(q.I),
                       upto(self.nodes, g, m, i + 1, q.I))
        return [('yields the pending match', opt_post(cx.ret, Not(so), lambda v: And(so, rec(v) == t))),
                ('the next pending match is the following matching sibling',
                 opt_post(n.f[0], Or(Not(so), p == 0, upto(self.nodes, g, m, i + 1, gn(g))), some)),
                ('the predicate is kept', cx.ex.veq(n.f[1], o.f[1]))]


def reg(key, o, props='P06', **kw):
    o.key, o.props = key, tuple(props.split())
    for k, v in kw.items():
        setattr(o, k, v)
    CONTRACTS[key] = o


for _n, _nodes in (('SyntaxNodeChildren', True), ('SyntaxElementChildren', False)):
    reg('<cursor::%s as Iterator>::next' % _n, ChildrenNext(_nodes))
    reg('cursor::%s::new' % _n, Made(True))
    reg('cursor::%s::by_kind' % _n, ByKind(_nodes))
    reg('<cursor::%sByKind as Iterator>::next' % _n, ByKindNext(_nodes))
reg(SN + '::children', Made(False))
reg(SN + '::children_with_tokens', Made(False))


# ---------------------------------------------------------------- successor walks
def step_check(cx, it, goal):
    """the step function of a successors iterator, on an arbitrary element"""
    ex = cx.ex
    s = cx.st.fork()
    s.bal = []
    x = ex.fresh(cx.step_ty, s, 'el')
    base = len(cx.st.pc)
    cs = []
    for s2, o in ex.call_value(s, it.f, [ex.alloc(s, x)]):
        c2 = Cx(ex, s, None, [x])
        c2.st, c2.ret = s2, o
        hyp = And(True, *s2.pc[base:])
        models.net_zero(ex, s2, s2.bal + [(g, k, t, -1) for g, k, t in ex.W.handles(o)], 'a step')
        cs.append(Implies(hyp, goal(c2, x, o)))
    return And(True, *cs)


class Walk(Contract):
    inline = True

    def __init__(self, ty, first, step, name):
        self.ty, self.first, self.step, self.name = ty, first, step, name

    def post(self, cx):
        it = cx.ret
        if not (isinstance(it, It) and it.k == 'succ'):
            raise Unsupported('the iterator is not built by successors')
        cx.step_ty = self.ty
        return [('starts at ' + self.first[0], self.first[1](cx, it.next)),
                ('each step goes to ' + self.name, step_check(cx, it, lambda c2, x, o: self.step(cx, c2, rec(x), o)))]


def to_self(cx, o):
    return opt_post(o, False, lambda v: rec(v) == rec(S(cx).arg(0)))


def to_parent(cx, o):
    r = W.Rec(cx.st0, rec(S(cx).arg(0)))
    return opt_post(o, r.P == 0, lambda v: And(r.P != 0, rec(v) == r.P))


def parent_step(cx, c2, x, o):
    r = W.Rec(c2.st0, x)
    return opt_post(o, r.P == 0, lambda v: And(r.P != 0, rec(v) == r.P))


def sib_step(nodes):
    def f(cx, c2, x, o):
        fwd = cx.a[1].is_(0)
        r = W.Rec(c2.st0, x)
        g = W.h(c2.st0, 'G', r.P)
        no = lambda a, b: forall_child(g, lambda j: Not(isnode(ch(g, j))) if nodes else z3.BoolVal(False), a, b)

        def some(v):
            q = W.Rec(c2.st, rec(v))
            return And(r.P != 0, q.P == r.P, q.G == ch(g, q.I), isnode(q.G) if nodes else True,
                       Implies(fwd, And(q.I > r.I, no(r.I + 1, q.I))), Implies(Not(fwd), And(q.I < r.I, no(q.I + 1, r.I))))
        return opt_post(o, Or(r.P == 0, And(fwd, no(r.I + 1, gn(g))), And(Not(fwd), no(z3.IntVal(0), r.I))), some)
    return f


_el = 'utility_types::NodeOrToken<cursor::SyntaxNode, cursor::SyntaxToken>'
reg(SN + '::ancestors', Walk(SN, ('the node itself', to_self), parent_step, 'the parent, ending after the root'), 'P07')
reg(ST + '::ancestors', Walk(SN, ('the parent', to_parent), parent_step, 'the parent, ending after the root'), 'P07')
reg(SE + '::ancestors', Walk(SN, ('the node itself or the token\'s parent', lambda cx, o: z3.If(S(cx).arg(0).is_(0), to_self(cx, o), to_parent(cx, o))),
                             parent_step, 'the parent, ending after the root'), 'P07')
reg(SN + '::siblings', Walk(SN, ('the node itself', to_self), sib_step(True), 'the adjacent sibling node'), 'P07')
reg(SN + '::siblings_with_tokens', Walk(_el, ('the node itself', to_self), sib_step(False), 'the adjacent sibling'), 'P07')
reg(ST + '::siblings_with_tokens', Walk(_el, ('the token itself', to_self), sib_step(False), 'the adjacent sibling'), 'P07')


# ---------------------------------------------------------------- searches over children iterators
class ChildPos:
    """abstract position of a children iterator (typed or untyped) for models.search_children"""

    def __init__(self, st, it):
        p = Pos(st, it.f[0] if it.ty.startswith('api::') else it)
        self.inv, self.parent, self.lo, self.g = p.inv, p.parent, p.lo, p.g

    gn = staticmethod(gn)

    @staticmethod
    def rust_ty(it):
        return it.ty + ('<L>' if it.ty.startswith('api::') else '')

    @staticmethod
    def nodes(it):
        return 'SyntaxNode' in it.ty

    @staticmethod
    def index(st, v):
        return W.h(st, 'I', rec(untyped(v)))

    @staticmethod
    def forall(g, f, lo, hi, nodes):
        return forall_child(g, (lambda j: Implies(isnode(ch(g, j)), f(j))) if nodes else f, lo, hi)


def untyped(v):
    if isinstance(v, Agg) and v.ty.startswith('api::') and v.names and 'raw' in v.names:
        return untyped(v.f[v.names.index('raw')])
    if isinstance(v, SEnum) and v.ty == 'NodeOrToken':
        return SEnum(v.ty, v.d, {i: tuple(untyped(x) for x in fs) for i, fs in v.vs.items()})
    return v


for _t in ('SyntaxNodeChildren', 'SyntaxElementChildren'):
    models.CHILD_ITERS['cursor::' + _t] = ChildPos
    models.CHILD_ITERS['api::' + _t] = ChildPos

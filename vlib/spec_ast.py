"""P23 (typed AST accessors) and P14 (node pointers): ast.rs.

AstNode is a trait implemented by the user; its contract (assumed): cast(node)
is Some exactly when can_cast(kind of node) holds, and syntax() of the result is
the node that was cast."""
from core import *
from exec import *
from exec import I, B, And, Or, Implies, Not
import world as W
import models
from models import It
from world import ch, rel, isnode, kind, glen, gn
from spec_nav import SN, ST, SE, ND
from spec_iter import reg, Pos, untyped, forall_child
from spec_api import from_raw
from spec_tok import SuccSearch

Int = z3.IntSort()
can_cast = {n: z3.Function('can_cast_' + n, Int, z3.BoolSort()) for n in ('N', 'U', 'Self')}
ASN = 'api::SyntaxNode'


def traw(v):
    return rec(untyped(v))


def tnode(v):
    """record of a typed AST node value"""
    return traw(v.f[0])


def ast_value(nm, node):
    return Agg('ast:' + nm, [node])


def api_node(ex, st, base='n'):
    return ex.fresh('api::SyntaxNode<L>', st, base)


def lk(st, r):
    return from_raw(kind(W.h(st, 'G', r)))


def ast_hook(Wd, ex, st, c, tn, tr, m, full, A, fr):
    one = lambda v: [(st, v)]
    if tr == 'AstNode' and c.self_ty in can_cast:
        f = can_cast[c.self_ty]
        if m == 'can_cast':
            return one(f(A[0].t))
        if m == 'cast':
            Wd.trusted.add('AstNode::cast of the user: Some exactly when can_cast(kind)')
            ok = f(lk(st, traw(A[0])))
            res = []
            for s, i in ex.branch(st, [ok, Not(ok)]):
                if i == 0:
                    res.append((s, SOME(ast_value(c.self_ty, A[0]))))
                else:
                    res += [(s2, NONE()) for s2 in ex.drop_value(s, A[0])]
            return res
        if m == 'syntax':
            p = A[0]
            return one(Ptr(p.base, p.path + (0,)))
    return None


IN_AST = re.compile(r'support::|AstChildren|SyntaxNodePtr|AstPtr|AstNode|ast::')


def ast_fresh(ex, t, st, base, guard):
    if t.s in can_cast and t.kind == 'adt' and IN_AST.search(ex.cur):
        n = api_node(ex, st, base)
        st.add(Implies(guard, can_cast[t.s](lk(st, traw(n)))))
        return ast_value(t.s, n)
    return None


# ---------------------------------------------------------------- P23
def cast_child(cx, g, parent, lo, nm, ret, after=None):
    """the first child node from lo on that can be cast"""
    f = can_cast[nm]
    m = lambda j: And(isnode(ch(g, j)), f(from_raw(kind(ch(g, j)))))

    def some(v):
        q = W.Rec(cx.st, tnode(v))
        return And(q.P == parent, q.I >= lo, q.G == ch(g, q.I), m(q.I),
                   forall_child(g, lambda j: Not(m(j)), lo, q.I), after(q.I) if after else True)
    return opt_post(ret, forall_child(g, lambda j: Not(m(j)), lo, gn(g)), some)


class AstContract(Contract):
    props = ('P23',)


class Child(AstContract):
    def post(self, cx):
        p = traw(S(cx).arg(0))
        g = W.h(cx.st0, 'G', p)
        return [('the first child node that can be cast; None iff there is none', cast_child(cx, g, p, z3.IntVal(0), 'N', cx.ret))]


class ChildrenNew(AstContract):
    def post(self, cx):
        q = Pos(cx.st, untyped(cx.ret.f[0]))
        return [('starts before the first child', And(q.parent == traw(S(cx).arg(0)), Not(q.init), Not(q.some)))]


class AstNext(AstContract):
    modifies = (0,)

    def pre(self, cx):
        return [('the iterator is consistent with the (unchanged) tree', Pos(cx.st, untyped(cx.old(cx.a[0]).f[0])).inv)]

    def post(self, cx):
        o, n = Pos(cx.st0, untyped(cx.old(cx.a[0]).f[0])), Pos(cx.st, untyped(cx.new(cx.a[0]).f[0]))
        f = lambda j: Not(isnode(ch(o.g, j)))
        return [('yields the next child that can be cast and stays just behind it',
                 cast_child(cx, o.g, o.parent, o.lo, 'N', cx.ret, lambda i: And(n.lo > i, forall_child(o.g, f, i + 1, n.lo)))),
                ('at the end nothing is left', opt_post(cx.ret, n.lo == gn(o.g), lambda v: True)),
                ('the iterator stays consistent', And(n.inv, n.parent == o.parent, n.init))]


class Token(AstContract):
    def post(self, cx):
        p = traw(S(cx).arg(0))
        g = W.h(cx.st0, 'G', p)
        k = cx.a[1].t
        m = lambda j: And(Not(isnode(ch(g, j))), from_raw(kind(ch(g, j))) == k)

        def some(v):
            q = W.Rec(cx.st, traw(v))
            return And(q.P == p, q.G == ch(g, q.I), m(q.I), forall_child(g, lambda j: Not(m(j)), z3.IntVal(0), q.I))
        return [('the first child token of the kind; None iff there is none',
                 opt_post(cx.ret, forall_child(g, lambda j: Not(m(j)), z3.IntVal(0), gn(g)), some))]


reg('ast::support::child', Child(), 'P23')
reg('ast::support::children', ChildrenNew(), 'P23')
reg('AstChildren::new', ChildrenNew(), 'P23')
reg('<AstChildren as Iterator>::next', AstNext(), 'P23')
reg('ast::support::token', Token(), 'P23')


# ---------------------------------------------------------------- P14
def rng_of(st, r):
    q = W.Rec(st, r)
    return q.A, q.A + glen(q.G)


class PtrNew(Contract):
    def node(self, cx):
        return traw(S(cx).arg(0))

    def panics(self, cx, msg):
        return W.h(cx.st0, 'M', self.node(cx))

    def raw(self, v):
        return v

    def post(self, cx):
        r = self.node(cx)
        a, b = rng_of(cx.st0, r)
        v = self.raw(cx.ret)
        return [('the tree is immutable', Not(W.h(cx.st0, 'M', r))),
                ('kind and range of the node', And(v.f[0].t == lk(cx.st0, r), v.f[1].f[0] == a, v.f[1].f[1] == b))]


class AstPtrNew(PtrNew):
    def node(self, cx):
        return tnode(S(cx).arg(0))

    def raw(self, v):
        return v.f[0]


anc = z3.Function('ancestor_at_depth', Int, Int, Int)


def anc_def(st, x, d):
    """definition of anc: following parents from x (depth D(x)) up to depth d"""
    X = W.Rec(st, x)
    a = anc(x, d)
    return And(anc(x, X.D) == x, Implies(And(d >= 0, d <= X.D), And(W.valid(st, a), W.h(st, 'D', a) == d)),
               Implies(And(d > 0, d <= X.D), anc(x, d - 1) == W.h(st, 'P', a)),
               Implies(And(d >= 0, d < X.D), W.h(st, 'P', anc(x, d + 1)) == a))


def inside_anc(st, x, d):
    X, a = W.Rec(st, x), W.Rec(st, anc(x, d))
    return And(a.A <= X.A, X.A + glen(X.G) <= a.A + glen(a.G), Implies(d < X.D, isnode(a.G)), a.root == X.root)


@lemma('an element lies inside each of its ancestors', 'P14')
def _anc():
    st = State()
    W.init_heap(st)
    x, d = z3.Ints('x d')
    X = W.Rec(st, x)
    hyp = [W.valid(st, x), anc_def(st, x, d), anc_def(st, x, d - 1)]
    return [('at its own depth', [W.valid(st, x), anc_def(st, x, X.D)], inside_anc(st, x, X.D)),
            ('one level up (induction step)', hyp + [d > 0, d <= X.D, inside_anc(st, x, d)], inside_anc(st, x, d - 1)),
            ('the ancestor at depth 0 is the root', [W.valid(st, x), anc_def(st, x, z3.IntVal(0)), X.D >= 0, inside_anc(st, x, z3.IntVal(0))],
             Implies(W.h(st, 'P', anc(x, 0)) == 0, anc(x, 0) == X.root))]


def matches(st, cx, r):
    p = S(cx).arg(0)
    raw = p.f[0] if len(p.f) == 1 else p
    a, b = rng_of(st, r)
    return And(isnode(W.h(st, 'G', r)), lk(st, r) == raw.f[0].t, a == raw.f[1].f[0], b == raw.f[1].f[1])


class Resolve(Contract):
    """try_to_node"""
    cast = None

    def root(self, cx):
        return traw(S(cx).arg(1))

    def panics(self, cx, msg):
        return W.h(cx.st0, 'M', self.root(cx))

    def node(self, v):
        return traw(v)

    def target(self, cx, st, x):
        """x is a node of the tree with the kind and (non-empty) range, the tree being given by its root"""
        p = S(cx).arg(0)
        raw = p.f[0] if len(p.f) == 1 else p
        a, b = raw.f[1].f
        return And(W.h(st, 'P', self.root(cx)) == 0, a < b, W.h(st, 'root', x) == self.root(cx), W.valid(st, x), matches(st, cx, x),
                   can_cast[self.cast](raw.f[0].t) if self.cast else True)

    def post(self, cx):
        root = self.root(cx)
        R = W.Rec(cx.st0, root)
        p = S(cx).arg(0)
        raw = p.f[0] if len(p.f) == 1 else p
        a, b = raw.f[1].f
        st = cx.st
        d, x = z3.Int('d!%d' % cx.ex.ctr), z3.Int('x!%d' % cx.ex.ctr) if cx.calling else z3.Int('target!x')
        cx.ex.ctr += 1

        def some(v):
            r = self.node(v)
            q = W.Rec(st, r)
            return And(R.P == 0, q.root == root, matches(st, cx, r),
                       z3.ForAll([d], Implies(And(d >= 0, d < q.D), Not(matches(st, cx, anc(r, d)))), patterns=[anc(r, d)]),
                       can_cast[self.cast](lk(st, r)) if self.cast else True)
        # no node of the tree has the kind and range: for an arbitrary element x of the tree
        hyp = self.target(cx, st, x)
        none = Not(hyp) if not cx.calling else z3.BoolVal(True)
        if cx.calling:
            none = z3.ForAll([x], Not(hyp), patterns=[W.h(st, 'root', x)])
        return [('the tree is immutable', Not(R.M)),
                ('a node of the tree with the kind and range, no ancestor of which has them; '
                 'None (for a non-empty range and a root) only if no node of the tree has them', opt_post(cx.ret, none, some))]

    def hints(self, cx):
        return []


class ResolveAst(Resolve):
    cast = 'N'

    def node(self, v):
        return tnode(v)


class ResolveOrPanic(Resolve):
    """to_node: as try_to_node, but panics when there is none"""

    def panics(self, cx, msg):
        return Or(W.h(cx.st0, 'M', self.root(cx)), Not(self.target(cx, cx.st0, z3.Int('target!x'))))

    def post(self, cx):
        r = Resolve.post(self, Redirect(cx))
        return r


class Redirect:
    """view a returned node as Some(node)"""

    def __init__(self, cx):
        self.__dict__.update(cx.__dict__)
        self.ret = SOME(cx.ret)


class ToNode(ResolveOrPanic):
    pass


class ToNodeAst(ResolveOrPanic):
    cast = 'N'

    def node(self, v):
        return tnode(v)


class ResolveInv(SuccSearch):
    def item(self, cx, it):
        return 'api::SyntaxNode<L>'

    def inv(self, cx, st, it):
        ex = cx.ex
        args = ex.top_args
        root = traw(ex.load(cx.entry, args[1]))
        raw = ex.load(cx.entry, args[0])
        c2 = Cx(ex, cx.entry, None, args)
        a, b = raw.f[1].f
        R = W.Rec(st, root)
        some, v = opt(it.next)
        x = z3.Int('target!x')
        X = W.Rec(st, x)
        target = And(a < b, X.root == root, W.valid(st, x), matches(st, c2, x))
        out = []
        if v is not None:
            n = traw(v)
            N = W.Rec(st, n)
            d = z3.Int('q!d%d' % ex.ctr)
            ex.ctr += 1
            # ground instances of the definition and the lemma, for the target and the walked node
            y = anc(x, N.D)
            for q in (anc_def(st, x, N.D), anc_def(st, x, N.D + 1), anc_def(st, x, N.D - 1), anc_def(st, x, I(0)),
                      Implies(And(N.D >= 0, N.D <= X.D), inside_anc(st, x, N.D)),
                      Implies(And(N.D + 1 >= 0, N.D + 1 <= X.D), inside_anc(st, x, N.D + 1)),
                      inside_anc(st, x, I(0)), Implies(W.h(st, 'P', anc(x, 0)) == 0, anc(x, 0) == X.root)):
                st.add(Implies(W.valid(st, x), q))
            st.add(anc_def(st, n, N.D), anc_def(st, n, N.D - 1),
                   z3.ForAll([d], Implies(And(d >= 0, d < N.D), anc(n, d) == anc(N.P, d)), patterns=[anc(n, d)]))
            ex.used.add('lemma:an element lies inside each of its ancestors')
            Y = W.Rec(st, y)
            g = Y.G
            i = W.h(st, 'I', anc(x, N.D + 1))
            st.add(mono_at(N.G))
            out.append(('the walk is at an ancestor of every node with that kind and range, in the same place',
                        Implies(And(some, target), And(N.D <= X.D, N.G == g, N.A == Y.A))))
            out.append(('the range does not start before the walk', Implies(some, N.A <= a)))
            out.append(('the walk stays in the tree of the root', Implies(some, And(N.root == root, R.P == 0))))
            out.append(('no ancestor of the walk matches',
                        Implies(some, z3.ForAll([d], Implies(And(d >= 0, d < N.D), Not(matches(st, c2, anc(n, d)))), patterns=[anc(n, d)]))))
        out.append(('the walk ends only if no node has that kind and range', Implies(Not(some), Not(target))))
        return out


def mono_at(g):
    import spec_pos
    return Implies(isnode(g), spec_pos.mono(g))


class PtrCast(Contract):
    def __init__(self, to):
        self.to = to

    def post(self, cx):
        v = S(cx).arg(0)
        raw = v if len(v.f) == 2 else v.f[0]
        ok = can_cast[self.to](raw.f[0].t)
        return [('the same pointer, exactly when the kind can be cast', opt_post(cx.ret, Not(ok), lambda w: And(ok, cx.ex.veq(w.f[0], raw))))]


class PtrGet(Contract):
    inline = True

    def __init__(self, f):
        self.f = f

    def post(self, cx):
        v = S(cx).arg(0)
        return [('the stored pointer data', self.f(cx, v, cx.ret))]


reg('SyntaxNodePtr::new', PtrNew(), 'P14 P22')
reg('AstPtr::new', AstPtrNew(), 'P14 P22')
reg('SyntaxNodePtr::try_to_node', Resolve(), 'P14 P22')
reg('SyntaxNodePtr::to_node', ToNode(), 'P14 P22')
reg('AstPtr::try_to_node', ResolveAst(), 'P14 P22')
reg('AstPtr::to_node', ToNodeAst(), 'P14 P22')
reg('SyntaxNodePtr::cast', PtrCast('N'), 'P14')
reg('AstPtr::cast', PtrCast('U'), 'P14')
reg('SyntaxNodePtr::kind', PtrGet(lambda cx, v, r: r.t == v.f[0].t), 'P14')
reg('SyntaxNodePtr::text_range', PtrGet(lambda cx, v, r: cx.ex.veq(r, v.f[1])), 'P14')
reg('AstPtr::syntax_node_ptr', PtrGet(lambda cx, v, r: cx.ex.veq(r, v.f[0])), 'P14')
reg('<SyntaxNodePtr as From<AstPtr>>::from', PtrGet(lambda cx, v, r: cx.ex.veq(r, v.f[0])), 'P14')
reg('<SyntaxNodePtr as Clone>::clone', PtrGet(lambda cx, v, r: cx.ex.veq(r, v)), 'P14')
reg('<AstPtr as Clone>::clone', PtrGet(lambda cx, v, r: cx.ex.veq(r, v)), 'P14')


class PtrEq(Contract):
    def post(self, cx):
        return [('equal exactly when kind and range are', cx.ret == cx.ex.veq(S(cx).arg(0), S(cx).arg(1)))]


reg('<SyntaxNodePtr as PartialEq>::eq', PtrEq(), 'P14 P19')
reg('<AstPtr as PartialEq>::eq', PtrEq(), 'P14 P19')


def install(world):
    world.hooks.append(ast_hook)
    world.freshers.append(ast_fresh)
    world.searches['SyntaxNodePtr::try_to_node'] = ResolveInv()


ASSUME = {'P23': ['AstNode implementations: cast(node) is Some exactly when can_cast(node.kind()), and syntax() returns the node that was cast'],
          'P14': ['AstNode implementations: cast(node) is Some exactly when can_cast(node.kind()), and syntax() returns the node that was cast',
                  'a language\'s Kind compares equal exactly when it is the same kind']}

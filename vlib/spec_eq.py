"""P19: equality and hashing.

cls(g) is the structure class of a green element: two elements have the same
class exactly when they are of the same sort, kind and content, recursively.
A hasher is an abstract state; hashing appends to it."""
import re
from core import *
from exec import *
from exec import I, B, And, Or, Implies, Not
import world as W
import models
from models import It
from world import ch, rel, isnode, kind, glen, gn, gtext
from spec_nav import SN, ST, green_id
from spec_iter import reg
from spec_green import owned_id

Int = z3.IntSort()
cls = z3.Function('g_class', Int, Int)
hop = z3.Function('hash_item', Int, Int, Int, Int)       # hasher state, what sort of item, value -> state
hcls = z3.Function('hash_class', Int, Int, Int)          # state after hashing a green element of a class
hsl = z3.Function('hash_children', Int, Int, Int, Int)   # state after hashing the first i children of g from a state
_sorts = {}


def sort_id(s):
    return _sorts.setdefault(s, len(_sorts) + 1)


def cls_def(a, b):
    """definition of the class, for a pair"""
    k = z3.Int('cd!%s!%s' % (a.sexpr().replace(' ', '_')[:40], b.sexpr().replace(' ', '_')[:40]))
    kids = z3.ForAll([k], Implies(And(k >= 0, k < gn(a)), cls(ch(a, k)) == cls(ch(b, k))), patterns=[ch(a, k)] if not (has_ite(a)) else [])
    return (cls(a) == cls(b)) == And(isnode(a) == isnode(b), kind(a) == kind(b),
                                      z3.If(isnode(a), And(gn(a) == gn(b), kids), gtext(a) == gtext(b)))


def cls_len(a, b):
    """lemma: same class => same length, and same child offsets"""
    k = z3.Int('cl!k')
    return Implies(cls(a) == cls(b), And(glen(a) == glen(b), gn(a) == gn(b),
                   z3.ForAll([k], Implies(And(k >= 0, k <= gn(a)), rel(a, k) == rel(b, k)), patterns=[rel(a, k)]),
                   z3.ForAll([k], Implies(And(isnode(a), k >= 0, k < gn(a)), isnode(ch(a, k)) == isnode(ch(b, k))), patterns=[ch(a, k)])))


LEN = 'elements of one class have the same length and child offsets'


@lemma(LEN, 'P19')
def _len():
    a, b, k = z3.Ints('a b k')
    hyp = [W.gfacts(a), W.gfacts(b), cls(a) == cls(b), cls_def(a, b)]
    ih = Implies(cls(ch(a, k)) == cls(ch(b, k)), glen(ch(a, k)) == glen(ch(b, k)))        # structural induction on the children
    return [('tokens', hyp + [Not(isnode(a)), W.strlen(gtext(a)) == glen(a), W.strlen(gtext(b)) == glen(b)], glen(a) == glen(b)),
            ('children are of the same sort', hyp + [isnode(a), k >= 0, k < gn(a), cls_def(ch(a, k), ch(b, k)), ch(a, k) == ch(a, k)],
             isnode(ch(a, k)) == isnode(ch(b, k))),
            ('offset of the first child', hyp, rel(a, 0) == rel(b, 0)),
            ('offset of the next child (induction step)', hyp + [isnode(a), k >= 0, k < gn(a), rel(a, k) == rel(b, k), W.cfacts(a, k), W.cfacts(b, k), ih,
                                                                 ch(a, k) == ch(a, k)], rel(a, k + 1) == rel(b, k + 1)),
            ('nodes: the length is the offset after the last child', hyp + [isnode(a), rel(a, gn(a)) == rel(b, gn(a))], glen(a) == glen(b))]


def use_len(ex, st, a, b):
    ex.used.add('lemma:' + LEN)
    st.add(cls_def(a, b), cls_len(a, b), W.strlen(gtext(a)) == Implies_len(a), W.strlen(gtext(b)) == Implies_len(b))


def Implies_len(g):
    return z3.If(isnode(g), W.strlen(gtext(g)), glen(g))


def gid(cx, v):
    v = unptr(cx, v)
    if isinstance(v, Ptr):
        return v.base[1]
    if isinstance(v, SEnum) and v.ty == 'NodeOrToken' and all(isinstance(f[0], Ptr) for f in v.vs.values()):
        return green_id(v)
    return owned_id(v)


def unptr(cx, v):
    while isinstance(v, Ptr) and (isinstance(v.base, int) or v.base[0] == 'gc'):
        v = cx.ex.load(cx.st0, v)
    return v


class GreenEq(Contract):
    """equal exactly when of the same class"""

    def pre(self, cx):
        return []

    def post(self, cx):
        a, b = gid(cx, cx.a[0]), gid(cx, cx.a[1])
        if not cx.calling:
            use_len(cx.ex, cx.st, a, b)
        return [('equal exactly when kind and content are equal', cx.ret == (cls(a) == cls(b)))]


def child_eq(a, i, b, j):
    x, y = ch(a, i), ch(b, j)
    return And(isnode(x) == isnode(y), rel(a, i) == rel(b, j), cls(x) == cls(y))


class ChildEq(Contract):
    def post(self, cx):
        (_, a, i), (_, b, j) = cx.a[0].base, cx.a[1].base
        if not cx.calling:
            use_len(cx.ex, cx.st, ch(a, i), ch(b, j))
        return [('equal exactly when offset and element are equal', cx.ret == child_eq(a, i, b, j))]


reg('<GreenNodeData as PartialEq>::eq', GreenEq(), 'P19')
reg('<GreenTokenData as PartialEq>::eq', GreenEq(), 'P19')
reg('<GreenNode as PartialEq>::eq', GreenEq(), 'P19')
reg('<GreenToken as PartialEq>::eq', GreenEq(), 'P19')
reg('<GreenChild as PartialEq>::eq', ChildEq(), 'P19')


# ---------------------------------------------------------------- hashing
class HashC(Contract):
    """state' is a function of the class of the element (relational: the body is run on two
    elements of one class from one hasher state)"""
    modifies = (1,)
    relational = True

    def hstate(self, cx, st):
        p = cx.a[1]
        v = cx.ex.load(st, p)
        while isinstance(v, Ptr):
            v = cx.ex.load(st, v)
        return v.t

    def post(self, cx):
        g = gid(cx, cx.a[0])
        h1 = self.hstate(cx, cx.st)
        if cx.calling:
            return [('the state depends on the class only', h1 == hcls(self.hstate(cx, cx.st0), cls(g)))]
        ex = cx.ex
        return [('two equal elements leave the hasher in the same state', self.second(cx, g, h1))]

    def second(self, cx, g, h1):
        ex = cx.ex
        s = cx.st0.fork()
        f = cx.f
        v = ex.fresh(f.params[0][1], s, 'other')
        g2 = gid(Cx2(ex, s), v)
        base = len(cx.st0.pc)
        s.add(cls(g) == cls(g2))
        use_len(ex, s, g, g2)
        # children hash equally, by induction over the children (lemma hash_children)
        k = z3.Int('hk!%d' % ex.ctr)
        ex.ctr += 1
        x = z3.Int('hs!%d' % ex.ctr)
        ex.ctr += 1
        s.add(z3.ForAll([x, k], Implies(And(isnode(g), k >= 0, k <= gn(g)), hsl(x, g, k) == hsl(x, g2, k)), patterns=[hsl(x, g, k)]))
        ex.used.add('lemma:' + KIDS)
        goal = z3.BoolVal(True)
        outs = ex.run_body(s, f, [v, cx.a[1]])
        for s2, r in outs:
            c2 = Cx2(ex, s2)
            c2.a = [v, cx.a[1]]
            goal = And(goal, Implies(And(True, *s2.pc[base:]), h1 == self.hstate(c2, s2)))
        return goal


class Cx2:
    def __init__(self, ex, st):
        self.ex, self.st0, self.st = ex, st, st


def child_step(x, g, i):
    """hasher state after hashing child i of g in state x (contract of GreenChild::hash)"""
    c = ch(g, i)
    return hcls(hop(hop(x, sort_id('u8'), z3.If(isnode(c), I(0), I(1))), sort_id('u32'), rel(g, i)), cls(c))


KIDS = 'children of one class hash equally'


@lemma(KIDS, 'P19')
def _kids():
    a, b, k, x = z3.Ints('a b k x')
    d = lambda g, i: And(hsl(x, g, 0) == x, Implies(And(i >= 0, i < gn(g)), hsl(x, g, i + 1) == child_step(hsl(x, g, i), g, i)))
    hyp = [W.gfacts(a), W.gfacts(b), isnode(a), cls(a) == cls(b), cls_def(a, b), cls_len(a, b), d(a, k), d(b, k), ch(a, k) == ch(a, k), rel(a, k) == rel(a, k)]
    c, e = ch(a, k), ch(b, k)
    return [('before the first child', hyp, hsl(x, a, 0) == hsl(x, b, 0)),
            ('one child further (induction step)', hyp + [k >= 0, k < gn(a), hsl(x, a, k) == hsl(x, b, k), cls_def(c, e)],
             hsl(x, a, k + 1) == hsl(x, b, k + 1))]


class ChildHash(HashC):
    def post(self, cx):
        _, g, i = cx.a[0].base
        return [('discriminant, offset and element are hashed', self.hstate(cx, cx.st) == child_step(self.hstate(cx, cx.st0), g, i))]


class HandleHash(HashC):
    def post(self, cx):
        r = W.Rec(cx.st0, rec(S(cx).arg(0)))
        x = self.hstate(cx, cx.st0)
        return [('only the green element and the offset are hashed',
                 self.hstate(cx, cx.st) == hop(hop(x, sort_id('ptr'), r.G), sort_id('u32'), r.A))]


reg('<GreenNode as Hash>::hash', HashC(), 'P19')
reg('<GreenToken as Hash>::hash', HashC(), 'P19')
reg('<GreenChild as Hash>::hash', ChildHash(), 'P19')
reg('<cursor::SyntaxNode as Hash>::hash', HandleHash(), 'P19')
reg('<cursor::SyntaxToken as Hash>::hash', HandleHash(), 'P19')


class ElemEq(Contract):
    """NodeOrToken of any types: same variant and equal payload"""

    def post(self, cx):
        a, b = S(cx).arg(0), S(cx).arg(1)
        return [('same variant and equal content', cx.ret == cx.ex.veq(a, b))]


class ElemHash(HashC):
    def post(self, cx):
        v = S(cx).arg(0)
        x = hop(self.hstate(cx, cx.st0), sort_id('isize'), I(v.d))
        p = z3.If(v.is_(0), v.vs[0][0].t, v.vs[1][0].t)
        return [('variant and content are hashed, and nothing else', self.hstate(cx, cx.st) == hop(x, sort_id('T'), p))]


reg('<NodeOrToken as PartialEq>::eq', ElemEq(), 'P19', inline=True)
reg('<NodeOrToken as Hash>::hash', ElemHash(), 'P19', inline=True)


class KindEq(Contract):
    inline = True

    def post(self, cx):
        a, b = S(cx).arg(0), S(cx).arg(1)
        return [('equal exactly when the raw kinds are', cx.ret == (a.f[0] == b.f[0]))]


reg('<SyntaxKind as PartialEq>::eq', KindEq(), 'P19 P18')


class PtrHash(HashC):
    def post(self, cx):
        v = S(cx).arg(0)
        raw = v if len(v.f) == 2 else v.f[0]
        x = hop(self.hstate(cx, cx.st0), sort_id('T'), raw.f[0].t)
        return [('kind and range are hashed, and nothing else',
                 self.hstate(cx, cx.st) == hop(hop(x, sort_id('u32'), raw.f[1].f[0]), sort_id('u32'), raw.f[1].f[1]))]


reg('<SyntaxNodePtr as Hash>::hash', PtrHash(), 'P19')
reg('<AstPtr as Hash>::hash', PtrHash(), 'P19')


# ---------------------------------------------------------------- models
def add_hash(ex, st, hp, items):
    while isinstance(ex.load(st, hp), Ptr):
        hp = ex.load(st, hp)
    v = ex.load(st, hp)
    t = v.t
    for s, x in items:
        t = hop(t, sort_id(s), x)
    ex.store(st, hp, Opq(v.ty, t))
    return [(st, UNIT)]


def hook(Wd, ex, st, c, tn, tr, m, full, A, fr):
    one = lambda v: [(st, v)]
    if tr == 'Hash' and m == 'hash' and len(A) == 2:
        v = A[0]
        while isinstance(v, Ptr) and (isinstance(v.base, int) or v.base[0] == 'gc' or (v.path and v.path[-1] not in ('slice', 'header', 'data'))):
            v = ex.load(st, v)
        if isinstance(v, Ptr) and v.path and v.path[-1] == 'slice':
            g = v.base[1]
            hp = A[1]
            while isinstance(ex.load(st, hp), Ptr):
                hp = ex.load(st, hp)
            h = ex.load(st, hp)
            t = hop(h.t, sort_id('len'), sl_len(g))
            if v.base[0] == 'gn':
                ex.used.add('<GreenChild as Hash>::hash')
                t = hsl(t, g, gn(g))
            else:
                t = hop(t, sort_id('bytes'), gtext(g))
            ex.store(st, hp, Opq(h.ty, t))
            return one(UNIT)
        if isinstance(v, Ptr) and v.path and v.path[-1] == 'header':
            v = ex.load(st, v)
        if isinstance(v, Agg) and v.ty in ('Count', 'PhantomData', '()') and not v.f:
            return one(UNIT)
        if isinstance(v, Agg) and v.ty == 'TextRange':
            return add_hash(ex, st, A[1], [('u32', v.f[0]), ('u32', v.f[1])])
        if isinstance(v, Agg) and v.ty == '()':         # tuple: the fields in order
            its = []
            for x in v.f:
                if isinstance(x, Ptr) and isinstance(x.base, tuple):
                    its.append(('ptr', x.base[1]))
                elif z3.is_int(x):
                    its.append(('u32', x))
                else:
                    return None
            return add_hash(ex, st, A[1], its)
        if z3.is_expr(v) and z3.is_int(v):
            return add_hash(ex, st, A[1], [('u32' if tn == 'TextSize' else tn, v)])
        if isinstance(v, Opq) and v.ty == '&[u8]':
            return add_hash(ex, st, A[1], [('len', Wd.strlen(st, v)), ('bytes', v.t)])
        if isinstance(v, Opq):
            return add_hash(ex, st, A[1], [('T', v.t)])
    if tr == 'PartialEq' and m in ('eq', 'ne') and len(A) == 2:
        a, b = A
        for _ in range(3):
            if isinstance(a, Ptr) and isinstance(a.base, int) and isinstance(b, Ptr) and isinstance(b.base, int):
                x, y = ex.load(st, a), ex.load(st, b)
                if isinstance(x, Ptr) and isinstance(y, Ptr):
                    a, b = x, y
        neg = (lambda e: e) if m == 'eq' else Not
        if isinstance(a, Ptr) and isinstance(b, Ptr) and isinstance(a.base, tuple) and isinstance(b.base, tuple):
            ka, kb = slice_of(a), slice_of(b)
            if ka is not None and kb is not None:
                if a.base[0] == 'gt' or b.base[0] == 'gt':
                    return one(neg(gtext(ka) == gtext(kb)))
                ex.used.add('<GreenChild as PartialEq>::eq')
                k = z3.Int('se!%d' % ex.ctr)
                ex.ctr += 1
                st.add(W.gfacts(ka), W.gfacts(kb))
                return one(neg(And(gn(ka) == gn(kb), z3.ForAll([k], Implies(And(k >= 0, k < gn(ka)), child_eq(ka, k, kb, k)), patterns=[ch(ka, k)]))))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and re.fullmatch(r'[A-Z]', tn) and slice_of(a) is None:
            x, y = ex.load(st, a), ex.load(st, b)
            if isinstance(x, Opq) and isinstance(y, Opq):
                return one(neg(x.t == y.t))
        if tn == 'Count':
            return one(z3.BoolVal(m == 'eq'))
        if c.self_ty.startswith('&') and isinstance(a, Ptr) and isinstance(b, Ptr) and not re.search('PartialEq<&+str>', c.trait_full or ''):
            va = a if isinstance(a.base, tuple) else ex.load(st, a)
            if isinstance(va, Agg) or isinstance(va, Ptr):
                t = re.sub(r"^&('\w+ )?", '', c.self_ty)
                r = ex.call(st, '<%s as std::cmp::PartialEq>::%s' % (t, m), [a, b], fr)
                return r
    return None


def sl_len(g):
    return z3.If(isnode(g), gn(g), glen(g))


def slice_of(p):
    if isinstance(p.base, int):
        return None
    if p.base[0] == 'gsl':
        return p.base[1]
    if p.path and p.path[-1] == 'slice':
        return p.base[1]
    return None


def intercept(ex, st, f, args):
    if f.key in ('<ThinArc as Deref>::deref', 'arc::<ThinArc as Deref>::deref') and isinstance(args[0], Ptr) and isinstance(args[0].base, int):
        v = ex.load(st, args[0])
        if isinstance(v, Agg) and v.ty in ('GreenNode', 'GreenToken'):
            v = v.f[0]
        if isinstance(v, Ptr) and v.base[0] == 'garc':
            ex.used.add('<ThinArc as Deref>::deref')
            g = v.base[1]
            res = []
            for s, i in ex.branch(st, [isnode(g), Not(isnode(g))]):
                res.append((s, Ptr(('gn' if i == 0 else 'gt', g), ('data',))))
            return res
    return None


def install(world):
    world.early_hooks.append(hook)
    world.intercepts.append(intercept)


ASSUME = {'P19': ['std: hashing a slice hashes its length and then every element in order; a tuple or derived struct its fields in order',
                  'text equality is equality of the string, two strings being equal exactly when their bytes are']}

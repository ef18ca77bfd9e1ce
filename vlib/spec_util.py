"""P18: small result types (utility_types.rs, cow_mut.rs)."""
from core import *
from exec import *
from exec import I, B, And, Or, Implies, Not
import world as W

deref_f = z3.Function('deref', z3.IntSort(), z3.IntSort())
app1 = z3.Function('app_1', z3.IntSort(), z3.IntSort(), z3.IntSort())


class Fn(Contract):
    """post given as a function of the spec view"""
    balance = False
    opaque = 'val'

    def post(self, cx):
        return self.fn(S(cx))


def fn(key, props='P18', **kw):
    def deco(f):
        o = Fn()
        o.key, o.props, o.fn = key, tuple(props.split()), f
        for k, v in kw.items():
            setattr(o, k, v)
        CONTRACTS[key] = o
        return f
    return deco


def val(s, v):
    """identity term of an opaque value or of what a reference points to"""
    while isinstance(v, Ptr):
        v = s.ex.load(s.cx.st, v)
    return v.t


def proj(key, variant, byref=False, typ='NodeOrToken'):
    @fn(key)
    def post(s):
        e = s.arg(0)
        return [('Some(content) exactly for the %s variant' % ('node', 'token')[variant],
                 opt_post(s.ret, Not(e.is_(variant)), lambda p: And(e.is_(variant), val(s, p) == val(s, e.vs[variant][0]))))]


proj('NodeOrToken::into_node', 0)
proj('NodeOrToken::into_token', 1)
proj('NodeOrToken::as_node', 0)
proj('NodeOrToken::as_token', 1)
for _k in ('into_node', 'into_token', 'as_node', 'as_token'):
    CONTRACTS['NodeOrToken::' + _k].inline = True


@fn('NodeOrToken::as_deref', inline=True)
def as_deref(s):
    e, r = s.arg(0), s.ret
    return [('same variant, dereferenced content', And(I(e.d) == I(r.d), *[
        Implies(r.is_(i), val(s, r.vs[i][0]) == deref_f(val(s, e.vs[i][0]))) for i in r.vs]))]


def variants_map(s, arity):
    e, r, f = s.arg(0), s.ret, s.cx.a[1].t
    return And(I(e.d) == I(r.d), *[Implies(r.is_(i), val(s, r.vs[i][k]) == app1(f, val(s, e.vs[i][k])))
                                   for i in r.vs for k in range(arity[i])])


@fn('WalkEvent::map', inline=True)
def walk_map(s):
    return [('same variant, content mapped once', variants_map(s, {0: 1, 1: 1}))]


@fn('TokenAtOffset::map', inline=True)
def tao_map(s):
    return [('same variant, contents mapped in place', variants_map(s, {0: 0, 1: 1, 2: 2}))]


def biased(key, k):
    @fn(key, inline=True)
    def post(s):
        e = s.arg(0)
        return [('the %s item, None only when empty' % ('left', 'right')[k], opt_post(
            s.ret, e.is_(0), lambda p: And(Not(e.is_(0)), Implies(e.is_(1), val(s, p) == val(s, e.vs[1][0])),
                                           Implies(e.is_(2), val(s, p) == val(s, e.vs[2][k])))))]


biased('TokenAtOffset::left_biased', 0)
biased('TokenAtOffset::right_biased', 1)


@fn('<TokenAtOffset as Iterator>::next', modifies=(0,), inline=True)
def tao_next(s):
    e, n = s.arg(0), s.argnew(0)
    ret = s.ret
    some, p = opt(ret)
    cs = [Implies(e.is_(0), And(Not(some), n.is_(0)))]
    cs.append(Implies(e.is_(1), And(some, n.is_(0))))
    cs.append(Implies(e.is_(2), And(some, n.is_(1))))
    if p is not None:
        cs.append(Implies(e.is_(1), val(s, p) == val(s, e.vs[1][0])))
        cs.append(Implies(e.is_(2), val(s, p) == val(s, e.vs[2][0])))
    if 1 in n.vs:
        cs.append(Implies(e.is_(2), val(s, n.vs[1][0]) == val(s, e.vs[2][1])))
    return [('pops the leftmost item and keeps the rest', And(*cs))]


@fn('<TokenAtOffset as Iterator>::size_hint', inline=True)
def tao_hint(s):
    e = s.arg(0)
    lo, hi = s.ret.f
    return [('exact: (n, Some(n))', And(lo == I(e.d), opt_post(hi, False, lambda p: p == I(e.d))))]


# CowMut
@fn('<CowMut as Deref>::deref', inline=True)
def cm_deref(s):
    e = s.arg(0)
    return [('the owned or borrowed value itself', Implies(True, And(*[Implies(e.is_(i), val(s, s.ret) == val(s, e.vs[i][0])) for i in e.vs])))]


@fn('<CowMut as DerefMut>::deref_mut', inline=True)
def cm_deref_mut(s):
    e = s.arg(0)
    return [('the owned or borrowed value itself', And(*[Implies(e.is_(i), val(s, s.ret) == val(s, e.vs[i][0])) for i in e.vs]))]


# Delta: the checked adjustment used on indices
@contract('<$ty as AddAssign>::add_assign', 'P18 P12', inline=True)
class DeltaAdd(Contract):
    balance = False

    def select(self, ex, fs):
        return [f for f in fs if 'u32' in f.params[0][1]][0]

    def pre(self, cx):
        s = S(cx)
        d = s.arg(1)
        return [('no overflow', And(Implies(d.is_(0), s.arg(0) + d.vs[0][0] <= U32), Implies(d.is_(1), s.arg(0) >= d.vs[1][0])))]

    def post(self, cx):
        s = S(cx)
        d = s.arg(1)
        return [('adds or subtracts exactly the amount', s.argnew(0) == z3.If(d.is_(0), s.arg(0) + d.vs[0][0], s.arg(0) - d.vs[1][0]))]


def deref_hook(Wd, ex, st, c, tn, tr, m, full, A, fr):
    if tr in ('Deref', 'DerefMut') and isinstance(A[0], Ptr) and isinstance(A[0].base, int):
        v = ex.load(st, A[0])
        if isinstance(v, Opq):
            return [(st, ex.alloc(st, Opq('deref', deref_f(v.t))))]
    return None


def install(world):
    world.hooks.append(deref_hook)

"""P10 (and the Display part of P21): the text of a node.  tchr(r, o) is the character that starts at byte o of the
text of the tree rooted at r, -1 inside a character; schr(s, i) the same for a string.  The text of a tree is by
definition the concatenation of its tokens: the text of a token at absolute offset A is the part of it from A on."""
from core import *
from exec import *
from exec import I, B, And, Or, Implies, Not
import world as W
import models
from models import It
from world import isnode, glen, gtext, strlen
from spec_nav import SN, ST, SE
from spec_iter import reg
from spec_walk import Pre, sub_facts

tchr = z3.Function('text_char', z3.IntSort(), z3.IntSort(), z3.IntSort())
schr = z3.Function('str_char', z3.IntSort(), z3.IntSort(), z3.IntSort())
TX = 'SyntaxText'
WALK = 'cursor::PreorderWithTokens'


def q1():
    import spec_heap
    return spec_heap.qv(1)[0]


def str_facts(t):
    return [strlen(t) >= 0, Implies(strlen(t) > 0, schr(t, 0) >= 0)]


def bnd(t, i):
    """i is a character boundary of the string"""
    return Or(i == 0, i == strlen(t), schr(t, i) >= 0)


def is_text(t, root, a, b):
    """the string t is the text of the tree from a to b"""
    return is_part(t, lambda o: tchr(root, o), a, b)


def is_part(t, f, a, b):
    i, o = q1(), q1()
    return And(strlen(t) == b - a,
               z3.ForAll([i], Implies(And(0 <= i, i < b - a), schr(t, i) == f(a + i)), patterns=[schr(t, i)]),
               z3.ForAll([o], Implies(And(a <= o, o < b), f(o) == schr(t, o - a)), patterns=[f(o)]))


def same_text(t, root, a, n):
    """the first n characters' positions agree (goal form)"""
    i = q1()
    return z3.ForAll([i], Implies(And(0 <= i, i < n), schr(t, i) == tchr(root, a + i)), patterns=[schr(t, i)])


def none_of(root, a, b, c):
    o = q1()
    return z3.ForAll([o], Implies(And(a <= o, o < b), tchr(root, o) != c), patterns=[tchr(root, o)])


def substr(ex, st, t, lo, hi):
    x = ex.sym('str')
    ex.W.subs[x.get_id()] = (x, t, lo, hi)
    i, j = q1(), q1()
    st.add(strlen(x) == hi - lo, *str_facts(x))
    st.add(z3.ForAll([i], Implies(And(0 <= i, i < hi - lo), schr(x, i) == schr(t, lo + i)), patterns=[schr(x, i)]),
           z3.ForAll([j], Implies(And(lo <= j, j < hi), schr(t, j) == schr(x, j - lo)), patterns=[schr(t, j)]))
    return Opq('&str', x)


def iff(a, b):
    return And(Implies(a, b), Implies(b, a))


def is_str(v):
    return isinstance(v, Opq) and v.ty in ('&str', 'str', 'String', '&String')


class TokText(Contract):
    """the text of the token"""

    def post(self, cx):
        r = W.Rec(cx.st0, rec(S(cx).arg(0)))
        return [('the text of its green element', cx.ret.t == gtext(r.G))]

    def fresh_ret(self, cx):
        return Opq('&str', gtext(W.h(cx.st0, 'G', rec(S(cx).arg(0)))))

    def effect(self, cx):
        r = W.Rec(cx.st0, rec(S(cx).arg(0)))
        if 'texts' in cx.st.gh:
            return      # known from the items of the iterators
        # definition of the text of a tree
        cx.ex.used.add('lemma:the text of a tree at an element is the text of that element')
        cx.st.add(is_text(gtext(r.G), r.root, r.A, r.A + glen(r.G)), *str_facts(gtext(r.G)))


reg(ST + '::text', TokText(), 'P10 P21 P05')


# ---------------------------------------------------------------- str in std
def hook(Wd, ex, st, c, tn, tr0, mm, full, A, fr):
    one = lambda v: [(st, v)]
    m, tr = c.method, c.trait
    path = '::'.join(c.path) if not c.trait else ''
    a = A[0] if A else None
    for _ in range(3):
        if isinstance(a, Ptr) and isinstance(a.base, int):
            v = ex.load(st, a)
            if is_str(v) or isinstance(v, Ptr):
                a = v
    if tr == 'Index' and (c.self_ty in ('str', 'std::string::String')) and is_str(a):
        t, r = a.t, A[1]
        n = strlen(t)
        st.add(*str_facts(t))
        ty = r.ty if isinstance(r, Agg) else ''
        if ty in ('TextRange', 'Range', 'std::ops::Range'):
            lo, hi = r.f
        elif ty.endswith('RangeFrom'):
            lo, hi = r.f[0], n
        elif ty.endswith('RangeTo'):
            lo, hi = I(0), r.f[0]
        elif ty.endswith('RangeFull'):
            lo, hi = I(0), n
        else:
            return None
        res = []
        for s in models.guard_panic(ex, st, And(0 <= lo, lo <= hi, hi <= n, bnd(t, lo), bnd(t, hi)), 'slice of a str out of bounds or inside a character'):
            res.append((s, substr(ex, s, t, lo, hi)))
        return res
    if path.startswith('core::str::') and is_str(a):
        t = a.t
        n = strlen(t)
        if m in ('contains', 'find') and z3.is_expr(A[1]):
            ch, w = A[1], ex.sym('at')
            j = q1()
            before = lambda s, hi: s.add(z3.ForAll([j], Implies(And(0 <= j, j < hi), schr(t, j) != ch), patterns=[schr(t, j)]))
            res = []
            st.add(*str_facts(t))
            s1, s2 = st.fork(), st.fork()
            s1.add(0 <= w, w < n, schr(t, w) == ch, ch >= 0)
            before(s1, w)
            before(s2, n)
            if ex.feasible(s1):
                res.append((s1, models.SOME(w) if m == 'find' else z3.BoolVal(True)))
            if ex.feasible(s2):
                res.append((s2, models.NONE() if m == 'find' else z3.BoolVal(False)))
            return res
        if m in ('starts_with', 'strip_prefix') and is_str(A[1]):
            u = A[1].t
            k = strlen(u)
            i, w = q1(), ex.sym('at')
            st.add(*str_facts(t), *str_facts(u))
            s1, s2 = st.fork(), st.fork()
            s1.add(k <= n, bnd(t, k), z3.ForAll([i], Implies(And(0 <= i, i < k), schr(t, i) == schr(u, i)), patterns=[schr(t, i)]),
                   z3.ForAll([i], Implies(And(0 <= i, i < k), schr(t, i) == schr(u, i)), patterns=[schr(u, i)]))
            s2.add(Or(k > n, And(0 <= w, w < k, schr(t, w) != schr(u, w))))
            strip = m == 'strip_prefix'
            return [(s, (models.SOME(substr(ex, s, t, k, n)) if b else models.NONE()) if strip else z3.BoolVal(b)) for s, b in ((s1, True), (s2, False)) if ex.feasible(s)]
        if m == 'chars':
            return one(Agg('Chars*', [a.t], ['s']))
        if m == 'is_char_boundary':
            return one(And(A[1] <= n, bnd(t, A[1])))
    if tr == 'Iterator' and m == 'next' and isinstance(A[0], Ptr) and isinstance(A[0].base, int):
        v = ex.load(st, A[0])
        if isinstance(v, Agg) and v.ty == 'Chars*':
            t = v.f[0]
            st.add(*str_facts(t))
            res = []
            for s, k in ex.branch(st, [strlen(t) > 0, strlen(t) == 0]):
                ex.store(s, A[0], Agg('Chars*', [ex.sym('rest')], ['s']))        # only the first character is followed
                res.append((s, models.SOME(schr(t, 0)) if k == 0 else models.NONE()))
            return res
    return None


# ---------------------------------------------------------------- folds over the walk of a tree
def flatten(ex, it, body):
    """adapters over a base iterator: -> (base, body over the items of the base, rebuild)"""
    if isinstance(it, It) and it.k in models.ADAPT:
        def body2(s, x):
            out = []
            p = models.fn_ptr(ex, s, it.f)
            held = s.mem[p.base] if isinstance(p, Ptr) and isinstance(p.base, int) else None
            for s2, r in ex.call_value(s, p, [ex.alloc(s, x) if it.k == 'filter' else x]):
                if held is not None and s2.mem[p.base] is not held:
                    raise Unsupported('an adapter that keeps a state')
                if it.k == 'map':
                    out += body(s2, r)
                elif it.k == 'filter_map':
                    for s3, i, fs in ex.case(s2, r):
                        out += body(s3, fs[0]) if i else [(s3, False, None)]
                else:
                    for s3, b in models.truth(ex, [(s2, r)]):
                        out += body(s3, x) if b else [(s4, False, None) for s4 in ex.drop_value(s3, x)]
            return out
        base, b, rb = flatten(ex, it.inner, body2)
        return base, b, lambda x: it.with_(inner=rb(x))
    return it, body, lambda x: x


class Fold:
    """one loop over a walk: the values that the body changes (captured variables, accumulator)"""

    def __init__(self, ex, entry, it0, cells, m, it):
        self.ex, self.entry, self.it0, self.cells, self.m, self.it = ex, entry, it0, cells, m, it

    def vals(self, st):
        return [st.mem[c] for c in self.cells]


def fresh_like(ex, st, v):
    if z3.is_expr(v) and z3.is_int(v):
        return ex.sym('fold')
    if z3.is_expr(v) and z3.is_bool(v):
        return ex.sym('fold', 'bool')
    if isinstance(v, Opq):
        return Opq(v.ty, ex.sym('fold'))
    if isinstance(v, Agg):
        return Agg(v.ty, [fresh_like(ex, st, x) for x in v.f], v.names)
    raise Unsupported('a loop changes %r' % (v,))


def fold(ex, st, it, acc, body, m='fold'):
    """for x in it { acc = body(acc, x)? }: body(s, acc, x) -> [(state, stop, new accumulator or payload)]
    -> [(state, rebuilt iterator, stopped, accumulator or payload)]"""
    inv = ex.W.walk_folds.get(ex.cur)
    cur = {}
    base, b2, rb = flatten(ex, it, lambda s, x: body(s, cur['acc'], x))
    kids = isinstance(base, Agg) and base.ty in models.CHILD_ITERS
    if inv is None or not (kids or isinstance(base, Agg) and base.ty == WALK):
        raise Unsupported('a fold over %r in %s needs an invariant' % (base, ex.cur))

    def round(cells):
        s = st.fork()
        hit = ex.fresh(models.CHILD_ITERS[base.ty].rust_ty(base) if kids else WALK, s, 'walk')
        cur['acc'] = acc if not (z3.is_expr(acc) or isinstance(acc, Opq)) else fresh_acc(ex, acc)
        for c in cells:
            s.mem[c] = fresh_like(ex, s, st.mem[c])
        F = Fold(ex, st, base, cells, m, it)
        for n, g in inv(F, s, hit, cur['acc']):
            s.add(g)
        for g, k, t in ex.W.handles(base):
            s.bal.append((g, k, t, -1))
        for g, k, t in ex.W.handles(hit):
            s.bal.append((g, k, t, +1))
        if not ex.feasible(s):
            raise Unsupported('the invariant of the loop is unsatisfiable')
        res, new = [], set()
        for s2, ni, o in models.it_next(ex, s.fork(), hit):
            for s3, i, fs in ex.case(s2, o):
                if i == 0:
                    res.append((s3, ni, False, cur['acc']))
                    continue
                for s4, stop, p in b2(s3, fs[0]):
                    if stop:
                        res.append((s4, ni, True, p))
                        continue
                    new |= {c for c in st.mem if s4.mem.get(c) is not s.mem[c]}
                    if any(s4.H[k] is not st.H[k] for k in st.H if k != 'rc'):
                        raise Unsupported('a loop writes to the tree')
                    for n, g in inv(F, s4, ni, cur['acc'] if p is None else p):
                        ex.oblige(s4, '%s: loop invariant preserved: %s' % (ex.cur, n), g, 'inv')
                    models.net_zero(ex, s4, s4.bal[len(s.bal):] + [(g, k, t, +1) for g, k, t in ex.W.handles(hit)] +
                                    [(g, k, t, -1) for g, k, t in ex.W.handles(ni)], 'a loop step')
        return res, new
    # the variables the body changes are found by running it; the last run, which changes no others, is the proof
    cells = ()
    for _ in range(4):
        n = len(ex.obls)
        for nm, g in inv(Fold(ex, st, base, cells, m, it), st, base, acc):
            ex.oblige(st, '%s: loop invariant on entry: %s' % (ex.cur, nm), g, 'inv')
        res, new = round(cells)
        if new <= set(cells):
            break
        del ex.obls[n:]
        cells = tuple(sorted(set(cells) | new, key=str))
    else:
        raise Unsupported('the variables a loop changes could not be determined')
    return [(s, rb(ni), stop, p) for s, ni, stop, p in res]


def fresh_acc(ex, acc):
    return Opq(acc.ty, ex.sym('acc')) if isinstance(acc, Opq) else ex.sym('acc')


def fold_hook(Wd, ex, st, c, tn, tr0, mm, full, A, fr):
    if not (c.trait == 'Iterator' and c.method in ('next', 'try_fold', 'try_for_each', 'for_each', 'fold', 'all', 'any') and A):
        return None
    recv, m = A[0], c.method
    if m == 'next' and isinstance(recv, Ptr) and isinstance(recv.base, int):
        v = ex.load(st, recv)
        if isinstance(v, Agg) and v.ty == 'TokIter*':
            return tokens_next(ex, st, recv)
    byref = isinstance(recv, Ptr) and isinstance(recv.base, int)
    it = ex.load(st, recv) if byref else recv
    b = it
    while isinstance(b, It) and b.k in models.ADAPT:
        b = b.inner
    if not (isinstance(b, Agg) and (b.ty == WALK or b.ty in models.CHILD_ITERS and ex.cur in ex.W.walk_folds)):
        return None
    unit = Agg('()', ())
    if m == 'next':
        if b is it or ex.cur not in ex.W.walk_folds:
            return None
        res = []
        for s, ni, stop, p in fold(ex, st, it, unit, lambda s, acc, x: [(s, True, x)], m):
            ex.store(s, recv, ni)
            res.append((s, models.SOME(p) if stop else models.NONE()))
        return res
    acc, f = (A[1], A[2]) if m in ('try_fold', 'fold') else (unit, A[1])
    cell = ex.alloc(st, f)

    def body(s, acc, x):
        out = []
        args = [acc, x] if m in ('try_fold', 'fold') else [x]
        for s2, r in ex.call_value(s, cell, args):
            if m in ('for_each', 'fold'):
                out.append((s2, False, r))
            elif m in ('all', 'any'):
                out += [(s3, v == (m == 'any'), unit) for s3, v in models.truth(ex, [(s2, r)])]
            else:
                for s3, i, fs in ex.case(s2, r):
                    if r.ty not in ('Result',):
                        raise Unsupported('try_fold with ' + r.ty)
                    out.append((s3, i == 1, fs[0]))
        return out
    res = []
    for s, ni, stop, p in fold(ex, st, it, acc, body, m):
        ss = [s]
        if byref:
            ex.store(s, recv, ni)
        else:
            ss = ex.drop_value(s, ni)
        for s2 in ss:
            for s3 in models.drop_fn(ex, s2, f):
                if m in ('all', 'any'):
                    r = z3.BoolVal(stop == (m == 'any'))
                elif m in ('fold', 'for_each'):
                    r = p
                else:
                    r = SEnum('Result', 1, {1: (p,)}) if stop else SEnum('Result', 0, {0: (p,)})
                res.append((s3, r))
    return res


# ---------------------------------------------------------------- the walk as a position in the text
class At:
    """a text (node, range) and the walk over its node: p is the end of the text passed so far"""

    def __init__(self, st, node, a, b, walk):
        self.node, self.a, self.b = node, a, b
        r = W.Rec(st, node)
        self.root, self.r = r.root, r
        o = Pre(st, walk, True)
        self.o = o
        self.end = r.A + glen(r.G)
        self.q = z3.If(o.ev.some, o.ev.pos(), self.end) if o.ev.v is not None else self.end
        self.p = z3.If(self.q <= a, a, z3.If(self.q >= b, b, self.q))
        for f in sub_facts(st, node, o.ev.t) if o.ev.v is not None else []:
            st.add(f)

    def inv(self, start=None):
        o = self.o
        return [('the walk is inside the node and has not passed its end', And(o.start == (self.node if start is None else start), Not(o.skip), o.inv, self.r.A <= self.q, self.q <= self.end))]


def text_of(cx_or_st, v):
    """(node record, start, end) of a SyntaxText value"""
    return rec(v.f[0]), v.f[1].f[0], v.f[1].f[1]


def text_inv(st, v):
    n, a, b = text_of(st, v)
    r = W.Rec(st, n)
    return And(r.A <= a, a <= b, b <= r.A + glen(r.G))


def whole(st, root, o):
    """o is a character boundary of the text of the tree"""
    return Or(o == 0, o == glen(W.h(st, 'G', root)), tchr(root, o) >= 0)


class Text(Contract):
    """operations on a text that lies on character boundaries"""
    ematch = True

    def me(self, cx):
        return S(cx).arg(0)

    def parts(self, cx):
        n, a, b = text_of(cx.st0, self.me(cx))
        return W.h(cx.st0, 'root', n), a, b

    def pre(self, cx):
        v = self.me(cx)
        n, a, b = text_of(cx.st, v)
        root = W.h(cx.st, 'root', n)
        return [('the text lies inside its node', text_inv(cx.st, v)),
                ('the text starts and ends at character boundaries', And(whole(cx.st, root, a), whole(cx.st, root, b)))]


def self_text(F):
    v = F.ex.top_args[0]
    while isinstance(v, Ptr) and isinstance(v.base, int):
        v = F.ex.load(F.ex.entry_state, v)
    return v


def text_fold(more):
    def inv(F, st, walk, acc):
        v = self_text(F)
        n, a, b = text_of(st, v)
        w = At(st, n, a, b, walk)
        return w.inv() + more(F, st, w, acc)
    return inv


FOLDS = {}


def op(key, props, c, inv):
    reg(key, c, props)
    FOLDS[key] = text_fold(inv)


class Contains(Text):
    def post(self, cx):
        root, a, b = self.parts(cx)
        o = q1()
        return [('true iff the character occurs in the text',
                 cx.ret == z3.Exists([o], And(a <= o, o < b, tchr(root, o) == cx.a[1])))]


def contains_inv(F, st, w, acc):
    return [('the character does not occur in the text passed', none_of(w.root, w.a, w.p, F.ex.top_args[1]))]


op(TX + '::contains_char', 'P10', Contains(), contains_inv)


class Find(Text):
    def post(self, cx):
        root, a, b = self.parts(cx)
        c = cx.a[1]
        return [('the first occurrence of the character, None iff there is none',
                 opt_post(cx.ret, none_of(root, a, b, c), lambda v: And(v >= 0, v < b - a, tchr(root, a + v) == c, none_of(root, a, a + v, c))))]


def the_int(F, st):
    vs = [v for v in F.vals(st) if z3.is_expr(v) and z3.is_int(v)]
    if len(vs) != 1:
        raise Unsupported('the loop keeps %d integers' % len(vs))
    return vs[0]


def find_inv(F, st, w, acc):
    return [('the count is the length of the text passed', the_int(F, st) == w.p - w.a) if F.cells else ('-', B(True)),
            ('the character does not occur in the text passed', none_of(w.root, w.a, w.p, F.ex.top_args[1]))]


op(TX + '::find_char', 'P10', Find(), find_inv)


class CharAt(Text):
    def panics(self, cx, msg):
        root, a, b = self.parts(cx)
        o = cx.a[1]
        return And(o < b - a, tchr(root, a + o) < 0)

    def post(self, cx):
        root, a, b = self.parts(cx)
        o = cx.a[1]
        return [('the character at the offset, None iff the offset is not before the end',
                 opt_post(cx.ret, o >= b - a, lambda v: And(o < b - a, v == tchr(root, a + o))))]


def char_at_inv(F, st, w, acc):
    return [('the count is the length of the text passed', the_int(F, st) == w.p - w.a) if F.cells else ('-', B(True)),
            ('the offset is not in the text passed', Or(F.ex.top_args[1] >= w.p - w.a))]


op(TX + '::char_at', 'P10', CharAt(), char_at_inv)


class EqStr(Text):
    """the text against a string"""

    def __init__(self, types, me=0):
        self.types, self.i = types, me

    def accepts(self, f):
        return [t.replace("'_ ", '') for _, t in f.params] == self.types

    def select(self, ex, fs):
        return next(f for f in fs if self.accepts(f))

    def me(self, cx):
        return S(cx).arg(self.i)

    def other(self, cx):
        return S(cx).arg(1 - self.i).t

    def pre(self, cx):
        t = self.other(cx)
        cx.st.add(*str_facts(t))
        return super().pre(cx)

    def post(self, cx):
        root, a, b = self.parts(cx)
        t = self.other(cx)
        return [('true iff the string is the text', iff(cx.ret, And(strlen(t) == b - a, same_text(t, root, a, b - a))))]


def eq_str_inv(F, st, w, acc):
    t = F.ex.top_args[1]
    while isinstance(t, Ptr):
        t = F.ex.load(F.ex.entry_state, t)
    t = t.t
    vs = [v for v in F.vals(st) if is_str(v)]
    if not F.cells:
        return []
    r = vs[0].t
    n = w.p - w.a
    i, j = q1(), q1()
    return [('the part of the string left', And(strlen(t) >= n, strlen(r) == strlen(t) - n,
                                                z3.ForAll([i], Implies(And(0 <= i, i < strlen(t) - n), schr(r, i) == schr(t, n + i)), patterns=[schr(r, i)]),
                                                z3.ForAll([j], Implies(And(n <= j, j < strlen(t)), schr(t, j) == schr(r, j - n)), patterns=[schr(t, j)]))),
            ('the part of the string passed is the text passed', same_text(t, w.root, w.a, n))]


_T = '&syntax_text::SyntaxText'
op('<SyntaxText as PartialEq<str>>::eq', 'P10', EqStr([_T, '&str']), eq_str_inv)
reg('<SyntaxText as PartialEq<&str>>::eq', EqStr([_T, '&&str']), 'P10', fkey='<SyntaxText as PartialEq<str>>::eq')
reg('<str as PartialEq<SyntaxText>>::eq', EqStr(['&str', _T], 1), 'P10')
reg('<&str as PartialEq<SyntaxText>>::eq', EqStr(['&&str', _T], 1), 'P10', fkey='<str as PartialEq<SyntaxText>>::eq')


# ---------------------------------------------------------------- making and cutting texts
class TextNew(Contract):
    """new(node), node.text(): the node and its range"""

    def fresh_ret(self, cx):
        n = rec(S(cx).arg(0))
        r = W.Rec(cx.st0, n)
        return Agg('SyntaxText', [Agg('cursor::SyntaxNode', [Ptr(('rec', n))], ['ptr']), models.TR(r.A, r.A + glen(r.G))], ['node', 'range'])

    def post(self, cx):
        n = rec(S(cx).arg(0))
        r = W.Rec(cx.st0, n)
        m, a, b = text_of(cx.st, cx.ret)
        return [('the text of the node given', m == n), ('from its start to its end', And(a == r.A, b == r.A + glen(r.G)))]


reg(TX + '::new', TextNew(), 'P10 P05')
reg(SN + '::text', TextNew(), 'P10 P05')


class TextLen(Contract):
    def __init__(self, empty):
        self.empty = empty

    def pre(self, cx):
        return [('the text lies inside its node', text_inv(cx.st, S(cx).arg(0)))]

    def post(self, cx):
        n, a, b = text_of(cx.st0, S(cx).arg(0))
        return [('true iff the text is empty', cx.ret == (a == b))] if self.empty else [('the number of bytes of the text', cx.ret == b - a)]


reg(TX + '::len', TextLen(False), 'P10')
reg(TX + '::is_empty', TextLen(True), 'P10')

# the bounds given to slice: a sealed trait with five implementations, each under contract: a pure function of the range
rs_some = [z3.Function('range_has_' + x, z3.IntSort(), z3.BoolSort()) for x in ('start', 'end')]
rs_val = [z3.Function('range_' + x, z3.IntSort(), z3.IntSort()) for x in ('start', 'end')]


class Bound(Contract):
    def __init__(self, end):
        self.end = end

    def post(self, cx):
        v = S(cx).arg(0)
        ty = v.ty if isinstance(v, Agg) else v.ty
        ty = ty.split('::')[-1].split('<')[0]
        w = {'TextRange': (0, 1), 'Range': (0, 1), 'RangeFrom': (0, None), 'RangeTo': (None, 0), 'RangeFull': (None, None)}[ty][self.end]
        if w is None:
            return [('unbounded', Not(opt(cx.ret)[0]))]
        return [('the bound of the range', opt_post(cx.ret, B(False), lambda x: x == v.f[w]))]

    def args(self, ex, st, f):
        ty = f.params[0][1]
        n = ty.lstrip('&').split('<')[0].split('::')[-1]
        if n == 'TextRange':
            return [ex.fresh(ty, st, 'a0')]
        k = {'Range': 2, 'RangeFrom': 1, 'RangeTo': 1, 'RangeFull': 0}[n]
        return [ex.alloc(st, Agg(n, [ex.fresh('text_size::TextSize', st, 'b') for _ in range(k)], ['start', 'end'][:k] if n != 'RangeTo' else ['end']))]


for _n in ('TextRange', 'Range', 'RangeFrom', 'RangeTo', 'RangeFull'):
    for _i, _m in enumerate(('start', 'end')):
        reg('<%s as SyntaxTextRange>::%s' % (_n, _m), Bound(_i), 'P10')


def bound_hook(Wd, ex, st, c, tn, tr0, mm, full, A, fr):
    if c.trait == 'SyntaxTextRange' and c.method in ('start', 'end'):
        v = ex.load(st, A[0])
        if isinstance(v, Opq):
            i = int(c.method == 'end')
            x = rs_val[i](v.t)
            st.add(x >= 0, x <= W.U32)
            return [(st, SEnum('Option', z3.If(rs_some[i](v.t), I(1), I(0)), {0: (), 1: (x,)}))]
    return None


class Slice(Contract):
    """slice(range): panics iff the range is not inside the text"""

    def bounds(self, cx):
        n, a, b = text_of(cx.st0, S(cx).arg(0))
        t = cx.a[1].t
        return n, a, b, z3.If(rs_some[0](t), rs_val[0](t), I(0)), z3.If(rs_some[1](t), rs_val[1](t), b - a)

    def pre(self, cx):
        return [('the text lies inside its node', text_inv(cx.st, S(cx).arg(0)))]

    def panics(self, cx, msg):
        n, a, b, s, e = self.bounds(cx)
        return Not(And(s <= e, e <= b - a))

    def post(self, cx):
        n, a, b, s, e = self.bounds(cx)
        m, a2, b2 = text_of(cx.st, cx.ret)
        return [('the range is inside the text', And(s <= e, e <= b - a)),
                ('of the same node', m == n), ('from the start of the range to its end', And(a2 == a + s, b2 == a + e)),
                ('the text lies inside its node', text_inv(cx.st, cx.ret))]


reg(TX + '::slice', Slice(), 'P10 P22')


# ---------------------------------------------------------------- chunks
class Chunks(Text):
    """the caller's function gets the pieces of the text one after the other, each result is handed on, and the end is
    reached unless it fails"""
    inline = True

    def __init__(self, acc, fails):
        self.acc, self.fails = acc, fails

    def args(self, ex, st, f):
        a = [ex.fresh(t, st, 'a%d' % i) for i, (l, t) in enumerate(f.params)]
        v = ex.load(st, a[0])
        st.gh['pos'] = ex.alloc(st, v.f[1].f[0])
        st.gh['failed'] = ex.alloc(st, z3.BoolVal(False))
        st.gh['err'] = ex.alloc(st, Opq('E', ex.sym('noerr')))
        st.gh['acc'] = ex.alloc(st, a[1] if self.acc else Opq('T', I(0)))
        return a

    def on_call(self, ex, st, f, args):
        v = ex.load(ex.entry_state, ex.top_args[0])
        n, a, b = text_of(st, v)
        root = W.h(st, 'root', n)
        t = args[-1].t
        g = st.gh
        pos = ex.load(st, g['pos'])
        ex.oblige(st, '%s: the function is given the next piece of the text' % ex.cur, And(pos + strlen(t) <= b, same_text(t, root, pos, strlen(t))), 'post')
        ex.oblige(st, '%s: no call after a failure' % ex.cur, Not(ex.load(st, g['failed'])), 'post')
        if self.acc:
            ex.oblige(st, '%s: the function is given the last result' % ex.cur, ex.veq(args[0], ex.load(st, g['acc'])), 'post')
        ex.store(st, g['pos'], pos + strlen(t))
        if not self.fails:
            return [(st, UNIT)]
        d, acc, err = ex.sym('fails'), Opq('T', ex.sym('acc')), Opq('E', ex.sym('err'))
        st.add(d >= 0, d <= 1)
        if self.acc:
            ex.store(st, g['acc'], acc)
        ex.store(st, g['failed'], d == 1)
        ex.store(st, g['err'], err)
        return [(st, SEnum('Result', d, {0: (acc if self.acc else UNIT,), 1: (err,)}))]

    def post(self, cx):
        root, a, b = self.parts(cx)
        g = cx.st.gh
        ld = lambda k: cx.ex.load(cx.st, g[k])
        ok = B(True) if not self.fails else cx.ret.is_(0)
        out = [('the pieces reach the end of the text unless a call failed', Implies(ok, And(ld('pos') == b, Not(ld('failed')))))]
        if self.fails:
            out.append(('a failure is handed on', Implies(Not(ok), And(ld('failed'), cx.ex.veq(cx.ret.vs[1][0], ld('err')) if 1 in cx.ret.vs else B(True)))))
        if self.acc:
            out.append(('the last result is handed on', Implies(ok, cx.ex.veq(cx.ret.vs[0][0], ld('acc')) if 0 in cx.ret.vs else B(True))))
        return out


def chunks_inv(F, st, w, acc):
    ld = lambda k: F.ex.load(st, st.gh[k])
    ct = F.ex.C[F.ex.cur]
    out = [('the pieces given are the text passed', ld('pos') == w.p), ('no call has failed', Not(ld('failed')))]
    if ct.acc:
        out.append(('the accumulator is the last result', F.ex.veq(acc, ld('acc')) if isinstance(acc, Opq) else B(False)))
    return out


op(TX + '::try_fold_chunks', 'P10', Chunks(True, True), chunks_inv)
op(TX + '::try_for_each_chunk', 'P10', Chunks(False, True), chunks_inv)
op(TX + '::for_each_chunk', 'P10', Chunks(False, False), chunks_inv)


# ---------------------------------------------------------------- printing
# A formatter is the string written so far, whether the sink behind it can fail, and the `#` flag.
def formatter(ex, st, base='fmt', out=None, fails=None):
    o = ex.sym(base) if out is None else out
    st.add(*str_facts(o))
    return Agg('Formatter*', [o, ex.sym(base + '.fails', 'bool') if fails is None else fails,
                              ex.sym(base + '.alternate', 'bool') if fails is None else z3.BoolVal(False)], ['out', 'can_fail', 'alternate'])


def fmt_fresher(ex, t, st, base, guard):
    if t.kind == 'adt' and t.name in ('std::fmt::Formatter', 'fmt::Formatter'):
        return formatter(ex, st, base)
    return None


def concat(ex, st, o, t):
    """the string o ++ t"""
    x = ex.sym('out')
    ex.W.cats[x.get_id()] = (x, o, t)
    if not getattr(ex.C.get(ex.cur), 'ematch', False):
        st.add(strlen(x) == strlen(o) + strlen(t))
        return x
    n, k = strlen(o), strlen(t)
    i, j, l = q1(), q1(), q1()
    st.add(strlen(x) == n + k, *str_facts(t), *str_facts(x))
    st.add(z3.ForAll([i], Implies(And(0 <= i, i < n), schr(x, i) == schr(o, i)), patterns=[schr(x, i)]),
           z3.ForAll([l], Implies(And(0 <= l, l < n), schr(x, l) == schr(o, l)), patterns=[schr(o, l)]),
           z3.ForAll([j], Implies(And(n <= j, j < n + k), schr(x, j) == schr(t, j - n)), patterns=[schr(x, j)]))
    return x


def write(ex, st, f, t):
    """write_str: -> [(state, ok)]"""
    v = ex.load(st, f)
    if not (isinstance(v, Agg) and v.ty == 'Formatter*'):
        raise Unsupported('write to %r' % (v,))
    res = []
    s1, s2 = st.fork(), st.fork()
    ex.store(s1, f, v.with_(0, concat(ex, s1, v.f[0], t)))
    res.append((s1, True))
    s2.add(v.f[1])
    if ex.feasible(s2):
        o = ex.sym('partial')
        s2.add(*str_facts(o))
        ex.store(s2, f, v.with_(0, o))
        res.append((s2, False))
    return res


OKU = lambda: SEnum('Result', 0, {0: (UNIT,)})
ERRF = lambda: SEnum('Result', 1, {1: (Agg('fmt::Error', ()),)})


def deref(ex, st, a):
    for _ in range(4):
        if isinstance(a, Ptr) and isinstance(a.base, int):
            a = ex.load(st, a)
    return a


def fmt_hook(Wd, ex, st, c, tn, tr0, mm, full, A, fr):
    if c.trait == 'Display' and c.method == 'fmt' and len(A) == 2:
        t = deref(ex, st, A[0])
        if is_str(t):
            return [(s, OKU() if ok else ERRF()) for s, ok in write(ex, st, A[1], t.t)]
    if mm == 'write_str' and (tn == 'Formatter' or c.trait == 'Write') and len(A) == 2:
        t = deref(ex, st, A[1])
        if is_str(t):
            return [(s, OKU() if ok else ERRF()) for s, ok in write(ex, st, A[0], t.t)]
    if c.trait == 'ToString' and c.method == 'to_string':
        f = ex.alloc(st, formatter(ex, st, 'string', ex.sym('empty'), z3.BoolVal(False)))
        st.add(strlen(ex.load(st, f).f[0]) == 0)
        res = []
        for s, r in ex.call(st, '<%s as std::fmt::Display>::fmt' % c.self_ty, [A[0], f], fr):
            for s2, i, fs in ex.case(s, r):
                if i == 1:
                    ex.panic(s2, 'a Display implementation returned an error unexpectedly', None)
                else:
                    res.append((s2, Opq('String', ex.load(s2, f).f[0])))
        return res
    return None


def written(st, o, n, root, a, p):
    return written_f(o, n, lambda x: tchr(root, x), a, p)


def written_f(o, n, f, a, p):
    """the string n is o followed by the text of the tree from a to p"""
    i, j = q1(), q1()
    k = strlen(o)
    return And(strlen(n) == k + (p - a),
               z3.ForAll([i], Implies(And(0 <= i, i < k), schr(n, i) == schr(o, i)), patterns=[schr(n, i)]),
               z3.ForAll([j], Implies(And(k <= j, j < k + (p - a)), schr(n, j) == f(a + (j - k))), patterns=[schr(n, j)]))


def printed_post(cx, root, a, b, ret, f):
    o, n = cx.ex.load(cx.st0, f), cx.ex.load(cx.st, f)
    return [('what is written is exactly the text', Implies(ret.is_(0), written(cx.st, o.f[0], n.f[0], root, a, b))),
            ('it fails only if the sink fails', Implies(ret.is_(1), o.f[1])),
            ('the sink is the same', And(n.f[1] == o.f[1], n.f[2] == o.f[2]))]


class TextDisplay(Text):
    modifies = (1,)

    def post(self, cx):
        root, a, b = self.parts(cx)
        return printed_post(cx, root, a, b, cx.ret, cx.a[1])


def fmt_vals(F, st):
    f = F.ex.top_args[1]
    return F.ex.load(F.ex.entry_state, f), F.ex.load(st, f)


def display_inv(F, st, w, acc):
    o, n = fmt_vals(F, st)
    if not F.cells:
        return []
    return [('what is written is the text passed', written(st, o.f[0], n.f[0], w.root, w.a, w.p)), ('the sink is the same', And(n.f[1] == o.f[1], n.f[2] == o.f[2]))]


op('<SyntaxText as Display>::fmt', 'P10 P21', TextDisplay(), display_inv)


class TextString(Text):
    def post(self, cx):
        root, a, b = self.parts(cx)
        t = cx.ret.t
        return [('the string is the text', And(strlen(t) == b - a, same_text(t, root, a, b - a)))]


reg('<String as From<SyntaxText>>::from', TextString(), 'P10')


# ---------------------------------------------------------------- comparison of two texts
def agree(r1, a1, r2, a2, n):
    return agree_f(lambda o: tchr(r1, o), a1, lambda o: tchr(r2, o), a2, n)


def agree_f(f, a1, g, a2, n):
    """the first n bytes' characters of the texts that start at a1 and a2 agree"""
    o = q1()
    return z3.ForAll([o], Implies(And(a1 <= o, o < a1 + n), f(o) == g(a2 + (o - a1))), patterns=[f(o)])


def arg_text(ex, i):
    v = ex.top_args[i]
    while isinstance(v, Ptr) and isinstance(v.base, int):
        v = ex.load(ex.entry_state, v)
    return v


def same_terms(v, a, b):
    """v holds the range a..b (a captured copy of the range of a text)"""
    if isinstance(v, Agg):
        if v.ty == 'TextRange':
            return z3.eq(v.f[0], a) and z3.eq(v.f[1], b)
        return any(same_terms(x, a, b) for x in v.f)
    return False


def text_index(ex, it):
    """which of the two texts compared an iterator over tokens belongs to"""
    x = it
    while isinstance(x, It):
        for i in (0, 1):
            v = arg_text(ex, i)
            if same_terms(x.f, v.f[1].f[0], v.f[1].f[1]):
                return i
        x = x.inner
    return None


def eq_inv(F, st, walk, acc):
    i = text_index(F.ex, F.it)
    if i is None:
        raise Unsupported('the iterator belongs to none of the texts compared')
    n, a, b = text_of(st, arg_text(F.ex, i))
    w = At(st, n, a, b, walk)
    if F.m == 'next':
        w0 = At(F.entry, n, a, b, F.it0)
        return w.inv() + [('only what lies outside the text is skipped', w.p == w0.p)]
    return w.inv() + [('the text has been passed', w.p == b)]


class TextEq(Contract):
    ematch = True
    chunks = 3

    def parts(self, cx):
        out = []
        for i in (0, 1):
            n, a, b = text_of(cx.st0, S(cx).arg(i))
            out.append((W.h(cx.st0, 'root', n), a, b))
        return out

    def pre(self, cx):
        out = []
        for i, (root, a, b) in enumerate(self.parts(cx)):
            out += [('text %d lies inside its node' % i, text_inv(cx.st, S(cx).arg(i))),
                    ('text %d starts and ends at character boundaries' % i, And(whole(cx.st, root, a), whole(cx.st, root, b)))]
        return out

    def post(self, cx):
        (r1, a1, b1), (r2, a2, b2) = self.parts(cx)
        return [('true iff the two texts are the same string', iff(cx.ret, And(b1 - a1 == b2 - a2, agree(r1, a1, r2, a2, b1 - a1))))]


reg('<SyntaxText as PartialEq>::eq', TextEq(), 'P10')
FOLDS['<SyntaxText as PartialEq>::eq'] = eq_inv


# zip_texts is generic over the iterators: it is verified for any iterators that yield the parts of the tokens of two
# texts in order, and the caller proves that of the iterators it passes (Tokens.proved)
class Tokens:
    """an iterator over (token, part of it inside the text): walk w of the text (node, a, b, characters)"""

    def __init__(self, st, text, walk):
        self.st, self.text = st, text
        self.w = At(st, *text[:3], walk)

    def item(self, p, tok, r):
        """the item yielded when the walk was at p before and is at w.p now"""
        w, t = self.w, W.Rec(self.st, rec(tok))
        self.st.add(is_part(gtext(t.G), self.text[3], t.A, t.A + glen(t.G)), *str_facts(gtext(t.G)))
        return w.inv() + [('the item is a token of the tree', And(t.root == w.root, Not(isnode(t.G)), W.valid(self.st, t.t))),
                          ('the part of it from where the walk was to where it is', And(t.A + r.f[0] == p, t.A + r.f[1] == w.p, 0 <= r.f[0], r.f[0] <= r.f[1], r.f[1] <= glen(t.G))),
                          ('the part is cut at characters', And(bnd(gtext(t.G), r.f[0]), bnd(gtext(t.G), r.f[1])))]

    def end(self, p):
        return self.w.inv() + [('the end of the text', And(p == self.text[2], self.w.p == self.text[2]))]


def tokens_next(ex, st, ptr):
    """the abstract next(): -> [(state, Option)]"""
    v = ex.load(st, ptr)
    i = v.f[1]
    text = st.gh['texts'][i]
    p = At(st, *text[:3], v.f[0]).p
    res = []
    for some in (True, False):
        s = st.fork()
        walk = ex.fresh(WALK, s, 'walk')
        T = Tokens(s, text, walk)
        if some:
            tok = ex.fresh('cursor::SyntaxToken', s, 'tok')
            r = models.TR(ex.sym('part.s'), ex.sym('part.e'))
            facts, o, own = T.item(p, tok, r), models.SOME(Agg('()', [tok, r])), [tok]
        else:
            facts, o, own = T.end(p), models.NONE(), []
        for n, g in facts:
            s.add(g)
        if not ex.feasible(s):
            continue
        new = Agg('TokIter*', [walk, i], ['walk', 'text'])
        s.bal += [(g, k, t, -1) for g, k, t in ex.W.handles(v)] + [(g, k, t, +1) for x in [new] + own for g, k, t in ex.W.handles(x)]
        ex.store(s, ptr, new)
        res.append((s, o))
    return res


def tokens_proved(ex, st, it, text):
    """obligations: next() of this iterator chain, from any state of its walk, is tokens_next"""
    s = st.fork()
    base, _, rb = flatten(ex, it, None)
    walk = ex.fresh(WALK, s, 'walk')
    w0 = At(s, *text[:3], walk)
    for n, g in w0.inv():
        s.add(g)
    cell = ex.alloc(s, rb(walk))
    nb = len(s.bal)
    c = None
    for s2, ni, stop, p in fold(ex, s, rb(walk), UNIT, lambda s, acc, x: [(s, True, x)], 'next'):
        b2, _, _ = flatten(ex, ni, None)
        T = Tokens(s2, text, b2)
        for n, g in (T.item(w0.p, p.f[0], p.f[1]) if stop else T.end(w0.p)):
            ex.oblige(s2, '%s: the tokens of the text: %s' % (ex.cur, n), g, 'post')
        models.net_zero(ex, s2, s2.bal[nb:] + [(g, k, t, +1) for g, k, t in ex.W.handles(rb(walk))] +
                        [(g, k, t, -1) for g, k, t in ex.W.handles(ni)] + ([(g, k, t, -1) for g, k, t in ex.W.handles(p)] if stop else []), 'a step over the tokens')


SIDE = [z3.Function('side_char%d' % i, z3.IntSort(), z3.IntSort()) for i in (0, 1)]


class Zip(Contract):
    ematch = True
    chunks = 4

    def args(self, ex, st, f):
        out, texts = [], []
        for i in (0, 1):
            n = ex.fresh('cursor::SyntaxNode', st, 'node%d' % i)
            r = ex.fresh('text_size::TextRange', st, 'range%d' % i)
            texts.append((rec(n), r.f[0], r.f[1], SIDE[i]))
            out.append(ex.alloc(st, Agg('TokIter*', [ex.fresh(WALK, st, 'walk%d' % i), i], ['walk', 'text'])))
        st.gh['texts'] = texts
        return out

    def sides(self, cx, st):
        """[(text, walk, iterator)]"""
        out = []
        for i in (0, 1):
            it = cx.ex.load(st, cx.a[i])
            if isinstance(it, Agg) and it.ty == 'TokIter*':
                out.append((st.gh['texts'][it.f[1]], it.f[0], it))
                continue
            k = text_index(cx.ex, it)
            if k is None:
                raise Unsupported('the iterator belongs to none of the texts compared')
            n, a, b = text_of(st, arg_text(cx.ex, k))
            root = W.h(st, 'root', n)
            out.append(((n, a, b, lambda o, root=root: tchr(root, o)), flatten(cx.ex, it, None)[0], it))
        return out

    def pre(self, cx):
        out = []
        for i, (text, walk, it) in enumerate(self.sides(cx, cx.st)):
            n, a, b, f = text
            r = W.Rec(cx.st, n)
            w = At(cx.st, n, a, b, walk)
            if cx.calling:
                tokens_proved(cx.ex, cx.st, it, text)
            out += [('text %d lies inside its node' % i, And(r.A <= a, a <= b, b <= r.A + glen(r.G), isnode(r.G))),
                    ('text %d starts and ends at character boundaries' % i, And(*[Or(x == 0, x == glen(W.h(cx.st, 'G', r.root)), f(x) >= 0) for x in (a, b)])),
                    ('the iterator over text %d is at its start' % i, And(*[g for _, g in w.inv()], w.p == a))]
        return out

    def effect(self, cx):
        if not cx.calling:
            return
        for i, (text, walk, it) in enumerate(self.sides(cx, cx.st)):
            new = flatten(cx.ex, it, None)[2](cx.ex.fresh(WALK, cx.st, 'walk'))
            cx.st.bal += [(g, k, t, -1) for g, k, t in cx.ex.W.handles(it)] + [(g, k, t, +1) for g, k, t in cx.ex.W.handles(new)]
            cx.ex.store(cx.st, cx.a[i], new)

    def post(self, cx):
        (t1, _, _), (t2, _, _) = self.sides(cx, cx.st0)
        (_, w1, _), (_, w2, _) = self.sides(cx, cx.st)
        x, y = At(cx.st, *t1[:3], w1), At(cx.st, *t2[:3], w2)
        l1, l2 = t1[2] - t1[1], t2[2] - t2[1]
        m = z3.If(l1 <= l2, l1, l2)
        some, _ = opt(cx.ret)
        return [('None iff the texts agree as far as the shorter one reaches', iff(Not(B(some)), agree_f(t1[3], t1[1], t2[3], t2[1], m))),
                ('the walks stay inside their nodes', And(*[g for _, g in x.inv() + y.inv()])),
                ('texts of the same length that agree have been passed', Implies(And(Not(B(some)), l1 == l2), And(x.p == t1[2], y.p == t2[2])))]

    def exit(self, cx):
        for i in (0, 1):
            cx.st.bal += [(g, k, t, +1) for g, k, t in cx.ex.W.handles(cx.old(cx.a[i]))] + [(g, k, t, -1) for g, k, t in cx.ex.W.handles(cx.new(cx.a[i]))]


reg('syntax_text::zip_texts', Zip(), 'P10')


class ZipInv:
    """both sides have passed the same number of bytes, and those agree"""

    def side(self, c, var, itvar):
        v = c.get(var)
        it = c.ex.load(c.st, c.get(itvar))
        text = c.st.gh['texts'][it.f[1]]
        return Tokens(c.st, text, it.f[0]), v.f[0], v.f[1], text

    def inv(self, c):
        out, xs = [], []
        for var, itv in (('x', 'xs'), ('y', 'ys')):
            T, tok, r, text = self.side(c, var, itv)
            X = W.h(c.st, 'A', rec(tok)) + r.f[0]
            out += [(var + ': ' + n, g) for n, g in T.item(X, tok, r)] + [(var + ': not before the text', X >= text[1])]
            xs.append((X, text[1], text[3]))
        (X, a1, f1), (Y, a2, f2) = xs
        return out + [('the same number of bytes was compared', X - a1 == Y - a2),
                      ('what was compared agrees', agree_f(f1, a1, f2, a2, X - a1))]

    def havoc(self, c):
        ex, st = c.ex, c.st
        held = []
        for var, itv in (('x', 'xs'), ('y', 'ys')):
            if st.mem.get(c.cell(var)) is not None:
                continue
            old = c.at_entry(var)
            c.set(var, Agg(old.ty, [ex.fresh('cursor::SyntaxToken', st, var), models.TR(ex.sym(var + '.s'), ex.sym(var + '.e'))], old.names))
            p = c.get(itv)
            it = ex.load(st, p)
            new = Agg(it.ty, [ex.fresh(WALK, st, 'walk'), it.f[1]], it.names)
            st.bal += [(g, k, t, -1) for g, k, t in ex.W.handles(it)] + [(g, k, t, +1) for g, k, t in ex.W.handles(new)]
            ex.store(st, p, new)
            held.append((p, new))
        st.gh[('zip', c.idx)] = held

    def step(self, c):
        for p, it in c.st.gh[('zip', c.idx)]:
            c.st.bal += [(g, k, t, +1) for g, k, t in c.ex.W.handles(it)] + [(g, k, t, -1) for g, k, t in c.ex.W.handles(c.ex.load(c.st, p))]



def install(world):
    world.early_hooks.append(fold_hook)
    world.early_hooks.append(hook)
    world.early_hooks.append(bound_hook)
    world.early_hooks.append(fmt_hook)
    world.freshers.append(fmt_fresher)
    world.walk_folds = FOLDS
    world.cats = {}
    world.subs = {}
    for i in range(3):
        world.invs[('syntax_text::zip_texts', i)] = ZipInv()

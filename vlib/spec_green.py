"""P02 (lengths and offsets), P03 (functional edits) and P20 (children iterator)
of the green layer."""
from core import *
from exec import *
from exec import I, B, And, Or, Implies, Not
import world as W
import models
from models import It, view, Ptr
from world import ch, rel, isnode, kind, glen, gn, gtext, gfacts, cfacts
from spec_nav import green_id
from spec_iter import reg

Int = z3.IntSort()
GN, GT = 'green::node::GreenNode', 'green::token::GreenToken'


# ---------------------------------------------------------------- P20: Children
class C20(Contract):
    """raw = the children lo..hi still to be yielded"""
    modifies = (0,)
    back = False

    def it(self, cx, new=False):
        v = (cx.new if new else cx.old)(cx.a[0]) if isinstance(cx.a[0], Ptr) else cx.a[0]
        r = v.f[0]
        return r.src[1], r.lo, r.hi

    def item(self, v, g, i):
        return And(green_id(v) == ch(g, i), v.is_(0) == isnode(ch(g, i)))


class Nth(C20):
    def __init__(self, back=False, nth=True):
        self.back, self.nth = back, nth

    def post(self, cx):
        g, lo, hi = self.it(cx)
        g2, lo2, hi2 = self.it(cx, True)
        n = cx.a[1] if self.nth else z3.IntVal(0)
        k = hi - 1 - n if self.back else lo + n
        none = n >= hi - lo
        after = And(lo2 == lo, hi2 == k) if self.back else And(lo2 == k + 1, hi2 == hi)
        return [('yields the child at that distance from the %s; nothing exactly when too few are left' % ('back' if self.back else 'front'),
                 opt_post(cx.ret, none, lambda v: And(Not(none), self.item(v, g, k)))),
                ('exactly the children up to that one are consumed',
                 And(g2 == g, z3.If(none, lo2 == hi2, after)))]


class Len(C20):
    modifies = ()

    def __init__(self, hint=False):
        self.hint = hint

    def post(self, cx):
        g, lo, hi = self.it(cx)
        if self.hint:
            return [('lower and upper bound are the exact length', And(cx.ret.f[0] == hi - lo, opt_post(cx.ret.f[1], False, lambda v: v == hi - lo)))]
        return [('the number of children left', cx.ret == hi - lo)]


class Last(C20):
    modifies = ()

    def post(self, cx):
        g, lo, hi = self.it(cx)
        return [('the last child left', opt_post(cx.ret, lo >= hi, lambda v: And(lo < hi, self.item(v, g, hi - 1))))]


class Cloned(C20):
    modifies = ()

    def post(self, cx):
        g, lo, hi = self.it(cx)
        r = cx.ret.f[0]
        return [('the same remaining children', And(r.src[1] == g, r.lo == lo, r.hi == hi))]


facc = z3.Function('fold_acc', Int, Int, Int, Int, Int)     # f, init, first index, steps done
app2 = z3.Function('app_2', Int, Int, Int, Int)


class Fold(C20):
    modifies = ()
    opaque = 'val'

    def __init__(self, back):
        self.back = back

    def post(self, cx):
        g, lo, hi = self.it(cx)
        f, init = cx.a[2].t, cx.a[1].t
        start = hi - 1 if self.back else lo
        cx.st.add(facc(f, init, start, 0) == init)
        return [('the closure is applied to every remaining child once, in order',
                 cx.ret.t == facc(f, init, start, hi - lo))]


class FoldInv:
    def __init__(self, back):
        self.back = back

    def parts(self, c):
        it0 = c.ex.top_args[0].f[0]
        g, lo, hi = it0.src[1], it0.lo, it0.hi
        cur = (c.get('self') if self.back else c.get('iter')).f[0]
        k = hi - cur.hi if self.back else cur.lo - lo
        f, init = c.ex.top_args[2].t, c.ex.top_args[1].t
        start = hi - 1 if self.back else lo
        return g, lo, hi, cur, k, f, init, start

    def inv(self, c):
        g, lo, hi, cur, k, f, init, start = self.parts(c)
        c.st.add(facc(f, init, start, 0) == init)
        nxt = ch(g, cur.hi - 1) if self.back else ch(g, cur.lo)
        c.st.add(facc(f, init, start, k + 1) == app2(f, facc(f, init, start, k), nxt))
        same = And(cur.lo == lo, cur.hi >= lo, cur.hi <= hi) if self.back else And(cur.hi == hi, cur.lo >= lo, cur.lo <= hi)
        return [('the accumulator covers exactly the children passed so far',
                 And(cur.src[1] == g, same, c.get('accum').t == facc(f, init, start, k)))]

    def havoc(self, c):
        nm = 'self' if self.back else 'iter'
        old = c.at_entry(nm)
        lo, hi = c.ex.sym('lo'), c.ex.sym('hi')
        c.set(nm, Agg(old.ty, [It('slice', src=old.f[0].src, lo=lo, hi=hi)], old.names))
        c.set('accum', Opq(c.at_entry('accum').ty, c.ex.sym('acc')))


_C = '<Children as %s>::%s'
reg(_C % ('Iterator', 'next'), Nth(nth=False), 'P20', inline=True)
reg(_C % ('Iterator', 'nth'), Nth(), 'P20', inline=True)
reg(_C % ('DoubleEndedIterator', 'next_back'), Nth(back=True, nth=False), 'P20', inline=True)
reg(_C % ('DoubleEndedIterator', 'nth_back'), Nth(back=True), 'P20', inline=True)
reg(_C % ('ExactSizeIterator', 'len'), Len(), 'P20', inline=True)
reg(_C % ('Iterator', 'count'), Len(), 'P20', inline=True)
reg(_C % ('Iterator', 'size_hint'), Len(True), 'P20', inline=True)
reg(_C % ('Iterator', 'last'), Last(), 'P20', inline=True)
reg(_C % ('Clone', 'clone'), Cloned(), 'P20', inline=True)
reg(_C % ('Iterator', 'fold'), Fold(False), 'P20')
reg(_C % ('DoubleEndedIterator', 'rfold'), Fold(True), 'P20')
CHILDREN_DEPS = ['<Children as Iterator>::next', '<Children as Iterator>::nth', '<Children as DoubleEndedIterator>::next_back',
                 '<Children as DoubleEndedIterator>::nth_back', '<Children as ExactSizeIterator>::len', '<Children as Iterator>::size_hint',
                 '<Children as Iterator>::fold', '<Children as DoubleEndedIterator>::rfold', '<Children as Iterator>::count',
                 '<Children as Iterator>::last']
models.CHILDREN_DEPS.extend(CHILDREN_DEPS)


# ---------------------------------------------------------------- sequences
class Seq:
    """an abstract finite sequence: n items, at(state, k)"""

    def __init__(self, n, at):
        self.n, self.at = n, at

    def it(self):
        return It('slice', src=('fn', self.at), lo=z3.IntVal(0), hi=self.n)


seq_len = z3.Function('seq_len', Int, Int)          # items an opaque iterator yields
seq_el = z3.Function('seq_el', Int, Int, Int)
psum = z3.Function('psum', Int, Int, Int)           # psum(q, k): total text length of the first k items of sequence q


def element(st, e):
    """an owned green element with identity e"""
    st.add(gfacts(e))
    return SEnum('NodeOrToken', z3.If(isnode(e), I(0), I(1)),
                 {0: (Agg('GreenNode', [Ptr(('garc', e))], ['ptr']),), 1: (Agg('GreenToken', [Ptr(('garc', e))], ['ptr']),)})


def owned_id(v):
    """identity of an owned green element / node / token"""
    if isinstance(v, Agg) and v.ty in ('GreenNode', 'GreenToken'):
        return v.f[0].base[1]
    if isinstance(v, SEnum) and v.ty == 'NodeOrToken':
        ts = [owned_id(v.vs[i][0]) for i in sorted(v.vs)]
        return ts[0] if len(ts) == 1 else z3.If(v.is_(0), ts[0], ts[1])
    raise Unsupported('owned green element expected: %r' % (v,))


def opaque_seq(q):
    return Seq(seq_len(q), lambda st, k: element(st, seq_el(q, k)))


def as_seq(ex, st, v):
    """the sequence an iterator value yields; stateful closures are handled by a registered fold invariant"""
    if isinstance(v, Opq):
        st.add(seq_len(v.t) >= 0)
        return opaque_seq(v.t)
    if isinstance(v, Agg) and v.ty == 'Vec':
        return v.f[0]
    if isinstance(v, It) and v.k == 'once':
        return Seq(I(1), lambda s, k, x=v.v: x)
    if isinstance(v, It) and v.k == 'empty':
        return Seq(I(0), lambda s, k: None)
    if isinstance(v, It) and v.k == 'map':
        inner = as_seq(ex, st, v.inner)
        fi = ex.W.folds.get(ex.cur)
        return consume(ex, st, inner, v.f, fi)
    w = view(ex, st, v)
    if w.fwd:
        return Seq(w.hi - w.lo, lambda s, k: w.at(s, w.lo + k))
    return Seq(w.hi - w.lo, lambda s, k: w.at(s, w.hi - 1 - k))


class FoldCx:
    def __init__(self, ex, seq, f, entry):
        self.ex, self.seq, self.f, self.entry = ex, seq, f, entry

    def captured(self, st, name):
        """pointer to the captured variable"""
        i = self.f.names.index(name)
        p = self.f.f[i]
        return p


def consume(ex, st, inner, f, fi):
    """map(f) over a sequence, run to its end: the closure is executed on an
    arbitrary item under the fold invariant; st is advanced to the state after
    the last item"""
    cell = ex.alloc(st, f)
    entry = st.fork()
    fc = FoldCx(ex, inner, f, entry)
    m = ex.sym('m')
    if fi is not None:
        for n, g in fi.inv(fc, st, I(0)):
            ex.oblige(st, '%s: fold invariant on entry: %s' % (ex.cur, n), g, 'inv')
    s = st.fork()
    s.add(m >= 0, m < inner.n)
    if fi is not None:
        fi.havoc(fc, s)
        for n, g in fi.inv(fc, s, m):
            s.add(g)
    x = inner.at(s, m)
    start, base = ex.ctr, len(s.pc)
    outs = ex.call_value(s, cell, [x])
    items = []
    for s2, o in outs:
        if fi is not None:
            for n, g in fi.inv(fc, s2, m + 1):
                ex.oblige(s2, '%s: fold invariant preserved: %s' % (ex.cur, n), g, 'inv')
            spec = fi.item(fc, s2, m)
            ex.oblige(s2, '%s: the item produced is as specified' % ex.cur, fi.same(ex, o, spec), 'inv')
        else:
            for c, v in st.mem.items():
                if s2.mem.get(c) is not v and c != cell.base:
                    raise Unsupported('a stateful closure needs a fold invariant')
        items.append((s2, o))
    if fi is not None:
        fi.havoc(fc, st)
        for n, g in fi.inv(fc, st, inner.n):
            st.add(g)
        return Seq(inner.n, lambda s, k: fi.item(fc, s, k))

    def at(s, k):
        return models.merge_enum(ex, s, ex.call_value(s, f, [inner.at(s, k)]))
    return Seq(inner.n, at)


def all_items(seq, ex, st, pred, n=None):
    """forall k < n: pred(k, item k), instantiated symbolically for proving"""
    k = ex.sym('k')
    s = st.fork()
    s.add(k >= 0, k < (seq.n if n is None else n))
    v = seq.at(s, k)
    hyp = And(True, *s.pc[len(st.pc):])
    return Implies(hyp, pred(k, v))


# ---------------------------------------------------------------- GreenNode::new
def total_ok(seq, ex, st):
    pass


class NewNode(Contract):
    balance = False

    def prepare(self, cx):
        cx.a = list(cx.a)
        cx.a[1] = as_seq(cx.ex, cx.st, cx.a[1])

    def parts(self, cx):
        seq = cx.a[1] if isinstance(cx.a[1], Seq) else as_seq(cx.ex, cx.st, cx.a[1])
        return cx.a[0].f[0], seq

    def panics(self, cx, msg):
        if 'overflow' in msg:
            return z3.BoolVal(True)         # more than 4 GiB of text: documented limit of TextSize
        return None

    def fresh_ret(self, cx):
        g = cx.ex.sym('g')
        return Agg('GreenNode', [Ptr(('garc', g))], ['ptr'])

    def post(self, cx):
        k, seq = self.parts(cx)
        if cx.calling:
            g = owned_id(cx.ret)
            q = z3.Int('q!%d' % cx.ex.ctr)
            cx.ex.ctr += 1
            s = cx.st.fork()
            n0 = len(s.pc)
            v = seq.at(s, q)
            facts = And(True, *s.pc[n0:])
            body = Implies(And(q >= 0, q < seq.n), And(facts, ch(g, q) == (owned_id(v) if v is not None else 0)))
            return [('shape', And(gfacts(g), isnode(g), kind(g) == k, gn(g) == seq.n,
                                  z3.ForAll([q], body, patterns=[ch(g, q)])))]
        ex, st = cx.ex, cx.st
        blk = ex.load(st, cx.ret.f[0].f[0])
        hdr, n, items = blk.f
        q = cx.a[1].t
        return [('the kind is the requested one', hdr.f[0].f[0] == k),
                ('the text length is the sum of the lengths of the children', hdr.f[1] == psum(q, seq_len(q))),
                ('it has as many children as were given', n == seq_len(q)),
                ('every child is the one given, recorded at the sum of the lengths before it',
                 all_items(items, ex, st, lambda i, v: same_child(ex, v, psum(q, i), seq_el(q, i))))]


def same_child(ex, v, off, e):
    c = []
    for i, fs in v.vs.items():
        c.append(Implies(v.is_(i), And(fs[0] == off, fs[1].f[0].base[1] == e, isnode(e) == (i == 0))))
    return And(True, *c)


class NewFold:
    """text_len = total length of the items consumed so far"""

    def q(self, fc):
        return fc.ex.top_args[1].t

    def inv(self, fc, st, k):
        q = self.q(fc)
        e = seq_el(q, k)
        st.add(psum(q, 0) == 0, psum(q, k + 1) == psum(q, k) + glen(e))
        return [('text_len is the total of the items so far', And(fc.ex.load(st, fc.captured(st, 'text_len')) == psum(q, k), psum(q, k) >= 0, psum(q, k) <= U32))]

    def havoc(self, fc, st):
        fc.ex.store(st, fc.captured(st, 'text_len'), fc.ex.sym('text_len'))

    def item(self, fc, st, k):
        q = self.q(fc)
        e = seq_el(q, k)
        return SEnum('GreenChild', z3.If(isnode(e), I(0), I(1)),
                     {0: (psum(q, k), Agg('GreenNode', [Ptr(('garc', e))])), 1: (psum(q, k), Agg('GreenToken', [Ptr(('garc', e))]))})

    def same(self, ex, o, spec):
        return ex.veq(o, spec)


class NewToken_(Contract):
    balance = False

    def fresh_ret(self, cx):
        return Agg('GreenToken', [Ptr(('garc', cx.ex.sym('g')))], ['ptr'])

    def post(self, cx):
        k, t = cx.a[0].f[0], cx.a[1].t
        if cx.calling:
            g = owned_id(cx.ret)
            return [('shape', And(gfacts(g), Not(isnode(g)), kind(g) == k, gtext(g) == t, glen(g) == W.strlen(t)))]
        blk = cx.ex.load(cx.st, cx.ret.f[0].f[0])
        hdr, n, items = blk.f
        return [('the kind is the requested one', hdr.f[0].f[0] == k),
                ('as many bytes as the text', n == W.strlen(t)),
                ('the bytes of the text', all_items(items, cx.ex, cx.st, lambda i, v: v == str_byte(t, i)))]


str_byte = z3.Function('str_byte', Int, Int, Int)
reg('GreenNode::new', NewNode(), 'P02 P03 P01')
reg('GreenToken::new', NewToken_(), 'P02 P01')


# ---------------------------------------------------------------- accessors
def ggetter(key, name, f, props='P02', **kw):
    class G(Contract):
        inline = True

        def post(self, cx):
            return [(name, f(cx, cx.a[0].base[1] if isinstance(cx.a[0], Ptr) and isinstance(cx.a[0].base, tuple) else None, cx.ret))]
    reg(key, G(), props, **kw)


ggetter('GreenNodeData::kind', 'the kind in the header', lambda cx, g, r: r.f[0] == kind(g))
ggetter('GreenNodeData::text_len', 'the text length in the header', lambda cx, g, r: r == glen(g))
ggetter('GreenNodeData::children', 'all children from first to last', lambda cx, g, r: And(r.f[0].src[1] == g, r.f[0].lo == 0, r.f[0].hi == gn(g)))
ggetter('GreenTokenData::kind', 'the kind in the header', lambda cx, g, r: r.f[0] == kind(g))
ggetter('GreenTokenData::text_len', 'the length of the text', lambda cx, g, r: r == glen(g))


class ChildGetter(Contract):
    inline = True

    def __init__(self, what):
        self.what = what

    def post(self, cx):
        _, g, i = cx.a[0].base
        r = cx.ret
        if self.what == 'as_ref':
            return [('the child element', And(green_id(r) == ch(g, i), r.is_(0) == isnode(ch(g, i))))]
        if self.what == 'rel_offset':
            return [('the recorded offset', r == rel(g, i))]
        return [('from the recorded offset over the length of the child', And(r.f[0] == rel(g, i), r.f[1] == rel(g, i + 1)))]


for _w in ('as_ref', 'rel_offset', 'rel_range'):
    reg('GreenChild::' + _w, ChildGetter(_w), 'P02')


class ElemGetter(Contract):
    inline = True

    def __init__(self, what, owned):
        self.what, self.owned = what, owned

    def post(self, cx):
        v = S(cx).arg(0)
        g = owned_id(v) if self.owned else green_id(v)
        r = cx.ret
        if self.what == 'kind':
            return [('the kind of the element', r.f[0] == kind(g))]
        if self.what == 'text_len':
            return [('the text length of the element', r == glen(g))]
        return [('the same element', And(owned_id(r) == g, r.is_(0) == v.is_(0)))]


_ref, _own = 'NodeOrToken<GreenNodeData, GreenTokenData>', 'NodeOrToken<GreenNode, GreenToken>'
for _w in ('kind', 'text_len'):
    reg(_ref + '::' + _w, ElemGetter(_w, False), 'P02')
    reg(_own + '::' + _w, ElemGetter(_w, True), 'P02')
reg(_ref + '::to_owned', ElemGetter('own', False), 'P02 P03', balance=False)


# ---------------------------------------------------------------- P03: edits
def new_children(cx, n, at, what):
    """the returned node has the kind of the original and exactly these children"""
    g = cx.a[0].base[1]
    r = owned_id(cx.ret)
    k = z3.Int('e!%d' % cx.ex.ctr)
    cx.ex.ctr += 1
    return [('the kind is kept', And(isnode(r), kind(r) == kind(g))),
            ('the children are the original ones with %s' % what,
             And(gn(r) == n, z3.ForAll([k], Implies(And(k >= 0, k < n), ch(r, k) == at(k)), patterns=[ch(r, k)])))]


class ReplaceChild(Contract):
    balance = False

    def panics(self, cx, msg):
        return z3.BoolVal(True) if 'overflow' in msg else None

    def post(self, cx):
        g = cx.a[0].base[1]
        i, e = cx.a[1], owned_id(cx.a[2])
        return new_children(cx, gn(g), lambda k: z3.If(k == i, e, ch(g, k)), 'the one at the index replaced')


class ReplaceFold:
    """the replacement is still there until the index is reached"""

    def args(self, fc):
        a = fc.ex.top_args
        return a[0].base[1], a[1], a[2]

    def inv(self, fc, st, k):
        g, i, e = self.args(fc)
        some, v = opt(fc.ex.load(st, fc.captured(st, 'replacement')))
        same = z3.BoolVal(True) if v is None else Implies(some, fc.ex.veq(v, e))
        return [('the replacement is unused before the index', And(Implies(k <= i, some), same))]

    def havoc(self, fc, st):
        g, i, e = self.args(fc)
        d = fc.ex.sym('some')
        st.add(d >= 0, d <= 1)
        fc.ex.store(st, fc.captured(st, 'replacement'), SEnum('Option', d, {0: (), 1: (e,)}))

    def item(self, fc, st, k):
        g, i, e = self.args(fc)
        st.add(cfacts(g, k))
        return element(st, z3.If(k == i, owned_id(e), ch(g, k)))

    def same(self, ex, o, spec):
        return And(owned_id(o) == owned_id(spec), o.is_(0) == spec.is_(0))


reg('GreenNodeData::replace_child', ReplaceChild(), 'P03')

rb_lo = z3.Function('range_lo', Int, Int)       # bounds of an arbitrary RangeBounds<usize>
rb_has_hi = z3.Function('range_has_end', Int, z3.BoolSort())
rb_hi = z3.Function('range_hi', Int, Int)


def bounds(ex, st, r, n):
    if isinstance(r, Opq):
        st.add(rb_lo(r.t) >= 0, rb_hi(r.t) >= 0)
        return rb_lo(r.t), z3.If(rb_has_hi(r.t), rb_hi(r.t), n)
    if isinstance(r, Agg) and r.ty == 'Range':
        return r.f[0], r.f[1]
    if isinstance(r, Agg) and r.ty == 'RangeInclusive':
        return r.f[0], r.f[1] + 1
    if isinstance(r, Agg) and r.ty == 'RangeFrom':
        return r.f[0], n
    raise Unsupported('range %r' % (r,))


class Splice(Contract):
    balance = False

    def prepare(self, cx):
        cx.a = list(cx.a)
        cx.a[2] = as_seq(cx.ex, cx.st, cx.a[2])

    def panics(self, cx, msg):
        if 'overflow' in msg:
            return z3.BoolVal(True)
        lo, hi, seq, n = self.parts(cx)
        return Or(lo > hi, hi > n)

    def parts(self, cx):
        n = gn(cx.a[0].base[1])
        lo, hi = bounds(cx.ex, cx.st, cx.a[1], n)
        seq = cx.a[2] if isinstance(cx.a[2], Seq) else as_seq(cx.ex, cx.st, cx.a[2])
        return lo, hi, seq, n

    def ret_(self, cx):
        pass

    def fresh_ret(self, cx):
        return Agg('GreenNode', [Ptr(('garc', cx.ex.sym('g')))], ['ptr'])

    def post(self, cx):
        lo, hi, seq, n = self.parts(cx)
        g = cx.a[0].base[1]

        def mid(k):
            v = seq.at(State(), k)
            return I(0) if v is None else owned_id(v)
        out = [('the range lies within the children', And(lo <= hi, hi <= n))]
        if cx.calling:
            out.append(('the result is a green node', gfacts(owned_id(cx.ret))))
        return out + new_children(cx, n - (hi - lo) + seq.n,
                                  lambda k: z3.If(k < lo, ch(g, k), z3.If(k < lo + seq.n, mid(k - lo), ch(g, k - seq.n + hi - lo))),
                                  'the range replaced by the given elements')


reg('GreenNodeData::splice_children', Splice(), 'P03 P22')


class Insert(Contract):
    balance = False

    def panics(self, cx, msg):
        if 'overflow' in msg:
            return z3.BoolVal(True)
        return cx.a[1] > gn(cx.a[0].base[1])

    def post(self, cx):
        g, i, e = cx.a[0].base[1], cx.a[1], owned_id(cx.a[2])
        return [('the index lies within the children', i <= gn(g))] + \
            new_children(cx, gn(g) + 1, lambda k: z3.If(k < i, ch(g, k), z3.If(k == i, e, ch(g, k - 1))), 'the new one inserted')


class Remove(Contract):
    balance = False

    def panics(self, cx, msg):
        if 'overflow' in msg:
            return z3.BoolVal(True)
        return cx.a[1] >= gn(cx.a[0].base[1])

    def post(self, cx):
        g, i = cx.a[0].base[1], cx.a[1]
        return [('the index is that of a child', i < gn(g))] + \
            new_children(cx, gn(g) - 1, lambda k: z3.If(k < i, ch(g, k), ch(g, k + 1)), 'the one at the index removed')


reg('GreenNodeData::insert_child', Insert(), 'P03 P22')
reg('GreenNodeData::remove_child', Remove(), 'P03 P22')


# ---------------------------------------------------------------- models
def hook(W_, ex, st, c, tn, tr, m, full, A, fr):
    one = lambda v: [(st, v)]
    if m == 'bytes' and 'str' in full and isinstance(A[0], Opq):
        t = A[0].t
        st.add(W.strlen(t) >= 0)
        return one(It('slice', src=('fn', lambda s, k: str_byte(t, k)), lo=I(0), hi=W.strlen(t)))
    if tn == 'Vec' and m == 'splice':
        v = ex.load(st, A[0])
        n = v.f[0].n
        lo, hi = bounds(ex, st, A[1], n)
        res = []
        for s in models.guard_panic(ex, st, And(lo <= hi, hi <= n), 'Vec::splice: range out of bounds'):
            r = as_seq(ex, s, A[2])
            old = v.f[0]

            def at(s2, k, old=old, r=r):
                a, b, d = old.at(s2, k), r.at(s2, k - lo), old.at(s2, k - r.n + hi - lo)
                e = z3.If(k < lo, owned_id(a), z3.If(k < lo + r.n, I(0) if b is None else owned_id(b), owned_id(d)))
                return element(s2, e)
            ex.store(s, A[0], Agg('Vec', [Seq(n - (hi - lo) + r.n, at)]))
            res.append((s, Opq('Splice', ex.sym('splice'))))
        return res
    if tr in ('Iterator',) and m == 'collect' and c.gen and parse_ty(c.gen[0]).s.startswith('std::vec::Vec'):
        return one(Agg('Vec', [as_seq(ex, st, A[0])]))
    return None


def intercept(ex, st, f, args):
    """the allocation of green elements (crate::arc), as contracts on the arc layer"""
    k = f.key
    if k == 'ThinArc::from_header_and_iter':
        ex.used.add(k)
        seq = as_seq(ex, st, args[1])
        p = ex.alloc(st, Agg('HeaderSlice*', [args[0], seq.n, seq]))
        return [(st, Agg('ThinArc', [p]))]
    if k in ('Arc::from_thin', 'Arc::into_thin'):
        ex.used.add(k)
        return [(st, Agg('Arc' if k.endswith('from_thin') else 'ThinArc', [args[0].f[0]]))]
    if k == 'Arc::get_mut' and isinstance(args[0], Ptr):
        v = ex.load(st, args[0])
        if isinstance(v, Agg) and v.ty == 'Arc' and isinstance(v.f[0].base, int):
            ex.used.add(k)
            return [(st, SOME(v.f[0]))]
    return None


def install(world):
    world.invs[('<Children as Iterator>::fold', 0)] = FoldInv(False)
    world.invs[('<Children as DoubleEndedIterator>::rfold', 0)] = FoldInv(True)
    world.hooks.append(hook)
    world.intercepts.append(intercept)
    world.folds['GreenNode::new'] = NewFold()
    world.folds['GreenNodeData::replace_child'] = ReplaceFold()

"""P16/P17/P02: the reference counted blocks of green elements (src/arc.rs, and the
pointer functions of src/green/{node,token}.rs).

A block b is an allocation holding `count`, and `data` = header, length, slice. A handle
(Arc, ThinArc, GreenNode, GreenToken) owns one unit of count(b); the protocol every function
has to follow (the contract of atomic reference counting):
  - units added minus units given up is the number of handles that leave minus those that come in;
  - a unit is given up with at least Release ordering;
  - exactly the function that gives up the last unit frees the block, once, and only after an
    Acquire operation on the count that follows; after giving up a unit that was not the last
    one, and after freeing, the block is not touched;
  - exclusive access is given out only after an Acquire load of the count returned 1."""
import re
import z3
from core import *
from exec import *
from exec import I, B, And, Or, Implies, Not
import world as W
import models
from mir import *

blen = z3.Function('block_length', z3.IntSort(), z3.IntSort())          # the length field
bhdr = z3.Function('block_header', z3.IntSort(), z3.IntSort())
szT, alT, alB = z3.Ints('size_of_T align_of_T align_of_block')
offs = {}
USZ = 2 ** 64 - 1
MAXREF = 2 ** 63 - 1


def off(ty, idx):
    """offset_of of a field: one unknown per (type constructor, field)"""
    n = re.match(r'(?:\w+::)*(\w+)', ty).group(1)
    return offs.setdefault((n, idx), z3.Int('offset_%s_%d' % (n, idx)))


def is_fat(ty):
    return re.search(r'\[[^;\[\]]*\]', ty) is not None


def blk(b, meta=None, path=()):
    return Ptr(('blk', b, meta), path)


def isblk(p):
    return isinstance(p, Ptr) and isinstance(p.base, tuple) and p.base[0] == 'blk'


def ev(st, *e):
    st.gh['ev'] = st.gh.get('ev', ()) + (e,)


def evs(st):
    return st.gh.get('ev', ())


GREEN = ('GreenNode', 'GreenToken')


class ArcWorld(W.World):
    HANDLES = ()
    addresses = True
    Cov = {(): ('count', 'data'), ('data',): None}

    # ---------------------------------------------- values
    def fresh(self, ex, t, st, base, guard):
        n = last_seg(t.name) if t.kind == 'adt' else ''
        if n in ('Arc', 'ThinArc'):
            b = ex.sym(base)
            fat = None
            if n == 'Arc':
                fat = ex.sym(base + '.len') if is_fat(t.s) else None
                if fat is not None:
                    st.add(fat == blen(b))
            st.add(blen(b) >= 0, blen(b) <= USZ, b > 0)
            return Agg(n, [blk(b, fat), Agg('PhantomData', ())], self.D.structs[n][1])
        if n in GREEN:
            return Agg(n, [self.fresh(ex, parse_ty('arc::ThinArc<H, T>'), st, base, guard)], ['ptr'])
        if t.kind in ('ref', 'ptr') or n == 'NonNull':
            i = t.args[0]
            m = last_seg(i.name) if i.kind == 'adt' else ''
            if m in ('ArcInner', 'HeaderSlice', 'GreenNodeData', 'GreenTokenData'):
                b = ex.sym(base)
                fat = ex.sym(base + '.len') if is_fat(i.s) else None
                st.add(blen(b) >= 0, blen(b) <= USZ, b > 0)
                if fat is not None:
                    st.add(fat == blen(b))
                return blk(b, fat, () if m == 'ArcInner' else ('data',))
            if i.s == 'T':
                b = ex.sym(base)
                return blk(b, None, ('data',))
        if t.kind == 'adt' and re.fullmatch(r'[A-Z]', t.name):
            return Opq(t.name, ex.sym(base))
        return None

    def handles(self, v, guard=True):
        return []

    # ---------------------------------------------- memory
    def field(self, ex, st, cur, n, ty):
        if isblk(cur):
            p = cur.path
            if p == ():
                return Ptr(cur.base, (self.D.structs['ArcInner'][1][n],))
            if p == ('data',):
                if re.match(r"(arc::)?HeaderSlice<", ty) and n == 0:
                    return cur                    # GreenNodeData / GreenTokenData are transparent
                return Ptr(cur.base, p + (self.D.structs['HeaderSlice'][1][n],))
            return Ptr(cur.base, p + (n,))
        return Ptr(cur.base, cur.path + (n,))

    def load(self, ex, st, ptr):
        if isblk(ptr):
            b = ptr.base[1]
            if ptr.path == ('data', 'length'):
                ev(st, 'read', b, ptr.path)
                m = st.gh.get('mem')
                if m is not None:
                    return m['length']
                return blen(b)
            if ptr.path[:2] == ('data', 'header'):
                ev(st, 'read', b, ptr.path)
                return Opq('H', bhdr(b))
            raise Unsupported('load of %s of a block' % (ptr.path,))
        if ptr.base[0] == 'opq' and not ptr.path:
            return ptr.base[1]
        raise Unsupported('load %r' % (ptr,))

    def store(self, ex, st, ptr, val):
        if isblk(ptr) and st.gh.get('mem') is not None and not st.gh['mem'].get('shared'):
            return self.write(ex, st, ptr, val)
        raise Unsupported('store %r' % (ptr,))

    def write(self, ex, st, p, v):
        m = dict(st.gh['mem'])
        ex.oblige(st, '%s: memory is written only if the allocation succeeded' % ex.cur, Not(m['null']), 'mem')
        if p.path == ('count',):
            m['count'] = v
        elif p.path == ('data', 'header'):
            m['header'] = v
        elif p.path == ('data', 'length'):
            m['length'] = v
        elif len(p.path) == 3 and p.path[:2] == ('data', 'slice') and isinstance(p.path[2], tuple):
            i = p.path[2][1]
            ex.oblige(st, '%s: the write of an item is inside the allocation' % ex.cur,
                      And(i >= 0, SLICE_OFF() + (i + 1) * szT <= m['size']), 'mem')
            m['slots'] = z3.Store(m['slots'], i, v.t)
            m['init'] = z3.Store(m['init'], i, True)
        else:
            raise Unsupported('write to %s of a block' % (p.path,))
        st.gh['mem'] = m

    def refof(self, ex, st, p):
        if isblk(p) and p.path == ('data', 'slice') and p.base[2] is not None:
            ex.oblige(st, '%s: a slice of a block has the stored length' % ex.cur, p.base[2] == self.length_of(st, p.base[1]), 'mem')
            return Ptr(('bsl', p.base[1], p.base[2]))
        return super().refof(ex, st, p)

    def length_of(self, st, b):
        m = st.gh.get('mem')
        return m['length'] if m is not None else blen(b)

    def cast(self, ex, st, v, ty, kind):
        if kind == 'PointerExposeProvenance' and isblk(v):
            return addr(v)
        if isblk(v):
            if v.base[2] is not None and not is_fat(ty) and re.search(r'\bT\b|\[|u8|usize|HeaderSlice', ty) and not re.search(r'ArcInner<T>', ty):
                return Ptr(('blk', v.base[1], None), v.path)
            if v.path == ('data', 'slice') and ty in ('*mut T', '*const T'):
                return Ptr(v.base, v.path + (('ix', I(0)),))
            return v
        if kind == 'Transmute' and isinstance(v, Agg) and v.ty in ('Arc', 'ThinArc'):
            n = last_seg(parse_ty(ty).name)
            if n not in ('Arc', 'ThinArc'):
                raise Unsupported('transmute to ' + ty)
            p = v.f[0]
            return Agg(n, [cast_meta(p, ty), Agg('PhantomData', ())], self.D.structs[n][1])
        return v

    def ptr_eq(self, ex, a, b):
        if isblk(a) and isblk(b):
            return addr(a) == addr(b)
        return None

    def bitop(self, ex, op, a, b, ty):
        # x & !(align - 1) for a power of two (every alignment is one): x rounded down to a multiple
        if op == 'BitAnd' and z3.is_true(z3.simplify(b == USZ - (alB - 1))):
            return a - a % alB
        return None

    def call_opaque(self, ex, st, f, args):
        if isinstance(f, Opq) and args and isinstance(args[0], Ptr) and isinstance(args[0].base, int):
            v = ex.load(st, args[0])
            ev(st, 'callback', v)
            return [(st, Opq('U', ex.sym('u')))]
        return None

    def needs_drop(self, v):
        return True

    def drop(self, ex, st, v):
        if isinstance(v, Agg) and v.ty in ('Arc', 'ThinArc'):
            f = ex.P.bykey['<%s as Drop>::drop' % v.ty][0]
            ex.P.prepare(f)
            ex.inlined.add(f.key)
            p = ex.alloc(st, v)
            return [s for s, _ in ex.run_body(st, f, [p])]
        if isinstance(v, Agg) and v.ty in GREEN:
            return self.drop(ex, st, v.f[0])
        if isinstance(v, Agg) and v.ty == 'Box*':
            p = v.f[0]
            ev(st, 'free', p.base[1], p.base[2], p.path)
            return [st]
        return None

    def resolve(self, ex, st, c, args, fr):
        return None

    def intercept(self, ex, st, f, args):
        return None

    def crate_model(self, ex, st, f, c, args):
        return None

    def const(self, ex, st, s):
        m = re.match(r'^(.*)::\{constant#(\d+)\}$', s)
        if m:
            fn = re.sub(r'::<.*?>(?=::|$)', '', m.group(1))
            key = last2(fn)
            body = OFFCONST(ex.P).get((key, int(m.group(2))))
            if body:
                o = off(*body)
                st.add(o >= 0, o < 2 ** 32)
                return o
        return super().const(ex, st, s)

    def std(self, ex, st, c, args, fr):
        r = self._std(ex, st, c, args, fr)
        if r is not None:
            self.trusted.add(models.norm(c))
            return r
        return models.std(self, ex, st, c, args, fr)

    def _std(self, ex, st, c, args, fr):
        m, full, tr = c.method, '::'.join(c.path), c.trait
        tn = models.tyname(c)
        A = args
        one = lambda v: [(st, v)]
        if tn in ('Atomic', 'AtomicUsize'):
            return atomic(ex, st, m, A)
        if full.endswith('atomic::fence'):
            ev(st, 'fence', None, ordname(A[0]))
            return one(UNIT)
        if m in ('slice_from_raw_parts', 'slice_from_raw_parts_mut') and isblk(A[0]):
            return one(Ptr(('blk', A[0].base[1], A[1]), A[0].path))
        if tn == 'NonNull' or (tr == 'From' and 'NonNull' in c.self_ty):
            if m in ('new_unchecked', 'as_ptr', 'from'):
                return one(A[0])
            if m == 'as_ref':
                return one(ex.load(st, A[0]))
        if tn == 'ManuallyDrop' or (tr == 'Deref' and 'ManuallyDrop' in c.self_ty):
            return one(A[0])
        if m == 'forget' and 'mem' in full:
            return one(UNIT)
        if m == 'from_raw' and tn == 'Box':
            return one(Agg('Box*', [A[0]]))
        if m == 'len' and isinstance(A[0], Ptr) and isinstance(A[0].base, tuple) and A[0].base[0] == 'bsl':
            return one(A[0].base[2])
        if m == 'addr_eq' and isblk(A[0]) and isblk(A[1]):
            return one(addr(A[0]) == addr(A[1]))
        if m in ('sub', 'byte_sub') and isblk(A[0]) and tr is None:
            ex.oblige(st, '%s: steps back from the data to the start of the block' % ex.cur,
                      And(B(A[0].path == ('data',)), A[1] == off('ArcInner', 1)), 'mem')
            return one(Ptr(A[0].base, ()))
        if m in ('add', 'offset', 'byte_add') and tr is None and isblk(A[0]):
            p = A[0]
            if p.path == () and st.gh.get('mem'):
                return one(Ptr(p.base, (('byte', A[1]),)))
            if len(p.path) == 3 and isinstance(p.path[2], tuple):
                j = p.path[2][1] + A[1]
                ex.oblige(st, '%s: the pointer stays inside the allocation' % ex.cur,
                          And(j >= 0, SLICE_OFF() + j * szT <= st.gh['mem']['size']), 'mem')
                return one(Ptr(p.base, p.path[:2] + (('ix', j),)))
        if m == 'is_null':
            if isblk(A[0]):
                mm = st.gh.get('mem')
                return one(mm['null'] if mm is not None else z3.BoolVal(False))
            if isinstance(A[0], SEnum):
                return one(A[0].is_(0))
        if m == 'from_utf8_unchecked' and isinstance(A[0], Ptr) and isinstance(A[0].base, tuple) and A[0].base[0] == 'bsl':
            return one(Ptr(('bstr',) + A[0].base[1:]))
        # ---- allocation
        if m == 'size_of':
            st.add(szT >= 0, szT <= 2 ** 63 - 1)
            return one(szT)
        if m == 'align_of':
            st.add(alB >= 1, alB <= 2 ** 29)
            return one(alB)
        if m in ('checked_mul', 'checked_add'):
            v = A[0] * A[1] if m == 'checked_mul' else A[0] + A[1]
            ok = v <= USZ
            return one(SEnum('Option', z3.If(ok, I(1), I(0)), {0: (), 1: (v,)}))
        if m == 'wrapping_add':
            v = A[0] + A[1]
            return one(z3.If(v > USZ, v - (USZ + 1), v))
        if m == 'from_size_align' and tn == 'Layout':
            b = ex.sym('ok', 'bool')
            st.gh['layout_ok'] = b
            return one(SEnum('Result', z3.If(b, I(0), I(1)), {0: (Agg('Layout', [A[0], A[1]]),), 1: (Opq('E', I(0)),)}))
        if m == 'alloc' and 'alloc' in full:
            b = ex.sym('block')
            st.add(b > 0)
            st.gh['mem'] = {'size': A[0].f[0], 'slots': z3.Array('slots!%d' % ex.ctr, z3.IntSort(), z3.IntSort()), 'init': z3.K(z3.IntSort(), z3.BoolVal(False)),
                            'b': b, 'null': ex.sym('null', 'bool'), 'count': None, 'header': None, 'length': None}
            return one(blk(b))
        if m == 'write' and 'ptr' in full and isblk(A[0]):
            self.write(ex, st, A[0], A[1])
            return one(UNIT)
        if m == 'handle_alloc_error':
            return []
        # ---- the caller's iterator: any behaviour
        if tr == 'ExactSizeIterator' and m == 'len':
            n = ex.sym('n')
            st.add(n >= 0, n <= USZ)
            st.gh['n'] = n
            return one(n)
        if tr == 'Iterator' and m == 'next' and isinstance(A[0], Ptr) and isinstance(ex.load(st, A[0]), Opq):
            k = st.gh.get('pos', I(0))
            st.gh['pos'] = k + 1
            d = iter_some(k)
            return one(SEnum('Option', z3.If(d, I(1), I(0)), {0: (), 1: (Opq('T', iter_item(k)),)}))
        return None


iter_some = z3.Function('iter_some', z3.IntSort(), z3.BoolSort())      # does the k-th call of next give an item
iter_item = z3.Function('iter_item', z3.IntSort(), z3.IntSort())       # and which
abase = z3.Function('address', z3.IntSort(), z3.IntSort())


def SLICE_OFF():
    return off('ArcInner', 1) + off('HeaderSlice', 2)


def addr(p):
    b = abase(p.base[1])
    path = p.path
    if path == ():
        return b
    if len(path) == 1 and isinstance(path[0], tuple):
        return b + path[0][1]
    if path == ('count',):
        return b + off('ArcInner', 0)
    r = b + off('ArcInner', 1)
    if path == ('data',):
        return r
    r = r + off('HeaderSlice', ['header', 'length', 'slice'].index(path[1]))
    if len(path) == 3:
        return r + path[2][1] * szT
    return r


def cast_meta(p, ty):
    return p if is_fat(ty) and not ty.startswith('arc::ThinArc') else Ptr(('blk', p.base[1], None), p.path)


def last2(fn):
    return fn.split('::')[-1]


_OC = {}


def OFFCONST(P):
    """inline constants that are offset_of!: (function, number) -> (type, field index)"""
    if id(P) not in _OC:
        d = {}
        for m in re.finditer(r'^[^\n]*?(\w+)::\{constant#(\d+)\}: usize = \{(.*?)^\}', P.text, re.S | re.M):
            o = re.search(r'offset_of::<(.*)>\(const 0_u32, const (\d+)_u32\)', m.group(3))
            if o:
                d[(m.group(1), int(m.group(2)))] = (o.group(1), int(o.group(2)))
        _OC[id(P)] = d
    return _OC[id(P)]


def ordname(v):
    if isinstance(v, SEnum):
        return ['Relaxed', 'Release', 'Acquire', 'AcqRel', 'SeqCst'][v.d] if v.conc() else '?'
    if isinstance(v, FnItem):
        return v.name.split('::')[-1]
    return str(v)


REL = ('Release', 'AcqRel', 'SeqCst')
ACQ = ('Acquire', 'AcqRel', 'SeqCst')


def atomic(ex, st, m, A):
    if m == 'new':
        return [(st, Agg('Atomic', [A[0]]))]
    p = A[0]
    if not (isblk(p) and p.path == ('count',)):
        return None
    b = p.base[1]
    if m in ('fetch_add', 'fetch_sub'):
        old = ex.sym('old')
        st.add(old >= 1, old <= USZ)          # the caller holds a unit
        ev(st, 'add' if m == 'fetch_add' else 'sub', b, A[1], ordname(A[2]), old)
        return [(st, old)]
    if m == 'load':
        v = ex.sym('cnt')
        st.add(v >= 0, v <= USZ)
        ev(st, 'load', b, ordname(A[1]), v)
        return [(st, v)]
    return None


# ---------------------------------------------------------------- contracts
class ArcC(Contract):
    world = ArcWorld
    inline = True
    balance = False
    frame = False
    hin = hout = 0           # handles that come in (by value, or die) / leave

    def panics(self, cx, msg):
        return None

    def block(self, cx):
        v = cx.a[0]
        while isinstance(v, Ptr) and isinstance(v.base, int):
            v = cx.ex.load(cx.st0, v)
        while isinstance(v, Agg):
            v = v.f[0]
        return v

    def value(self, cx):
        return []

    def post(self, cx):
        return self.value(cx) + protocol(cx, self.block(cx).base[1], self.hin, self.hout, getattr(self, 'fatfree', False))


def protocol(cx, b, hin, hout, fatfree=False):
    E = evs(cx.st)
    net = I(0)
    out = []
    ok_rel, ok_touch, freed, acq, last = True, True, 0, False, None
    goals = []
    for e in E:
        k = e[0]
        if k == 'callback':
            continue
        if k == 'fence':
            if last is not None and e[2] in ACQ:
                acq = True
            continue
        goals.append(('only this block is touched', e[1] == b))
        if freed:
            ok_touch = False
        if k == 'add':
            net = net + e[2]
            goals.append(('the count stays below its limit', e[4] <= MAXREF))
        elif k == 'sub':
            net = net - e[2]
            goals.append(('one unit is given up at a time', e[2] == 1))
            ok_rel = ok_rel and e[3] in REL
            if last is not None:
                ok_touch = False
            last = e[4]
            acq = e[3] in ACQ and e[3] in REL
        elif k == 'load':
            if last is not None:
                goals.append(('not touched after a unit that was not the last one was given up', last == 1))
                if e[2] in ACQ:
                    acq = True
        elif k == 'read':
            if last is not None:
                goals.append(('not touched after a unit that was not the last one was given up', last == 1))
        elif k == 'free':
            freed += 1
            goals.append(('freed as the allocation that was made', B(e[3] == ())))
            if fatfree:
                goals.append(('freed with the length it was made with', B(False) if e[2] is None else e[2] == blen(b)))
            goals.append(('freed only after an Acquire operation that follows giving up the last unit', B(acq)))
    if last is not None:
        goals.append(('freed exactly when the last unit was given up', B(freed == 1) == (last == 1)))
    else:
        goals.append(('not freed', B(freed == 0)))
    goals.append(('units are given up with Release ordering', B(ok_rel)))
    goals.append(('not used after it was freed or given up', B(ok_touch)))
    goals.append(('units added minus given up = handles that leave minus handles that come in', net == hout - hin))
    return goals


def same(cx, r, b, path, fat):
    """r points into the same block, at path, with the right length if it is a fat pointer"""
    if not isblk(r):
        return B(False)
    m = r.base[2]
    f = B(m is None) if fat is False else (B(m is not None) if m is None else m == blen(b)) if fat else B(True)
    return And(r.base[1] == b, B(r.path == path), f)


def mk(key, path=None, fat=None, hin=0, hout=0, name='points to the same block', unwrap=True, props='P16 P17 P02', **kw):
    class C(ArcC):
        def value(self, cx):
            if path is None:
                return []
            r = cx.ret
            while isinstance(r, Agg):
                r = r.f[0]
            return [(name, same(cx, r, self.block(cx).base[1], path, fat))]
    o = C()
    o.hin, o.hout = hin, hout
    o.key, o.props = key, tuple(props.split())
    for k, v in kw.items():
        setattr(o, k, v)
    CONTRACTS[key] = o


D, N = ('data',), ()
mk('Arc::ptr', N)
mk('Arc::inner', N)
mk('<Arc as Deref>::deref', D)
mk('arc::thin_to_thick', N, True)
mk('<HeaderSlice as Deref>::deref', D, True)
mk('<ThinArc as Deref>::deref', D, True)
mk('Arc::from_raw', N, hin=1, hout=1)
mk('<Arc as Clone>::clone', N, hout=1)
mk('<Arc as Drop>::drop', hin=1)
mk('Arc::from_thin', N, True, hin=1, hout=1)
mk('Arc::into_thin', N, False, hin=1, hout=1)
mk('<ThinArc as Clone>::clone', N, False, hout=1)
mk('<ThinArc as Drop>::drop', hin=1, fatfree=True)
for _g in GREEN:
    mk('<%s as Deref>::deref' % _g, D, False)
    mk('<%s as Borrow>::borrow' % _g, D, False)
    mk('<%s as Clone>::clone' % _g, N, False, hout=1)
    mk('%s::into_raw' % _g, D, False, hin=1, hout=1)
    mk('%s::from_raw' % _g, N, False, hin=1, hout=1)
    mk('<%sData as ToOwned>::to_owned' % _g, N, False, hout=1)


class SliceC(ArcC):
    def value(self, cx):
        r = cx.ret
        b = self.block(cx).base[1]
        return [('the items of the block, all of them', And(B(isinstance(r, Ptr) and r.base[0] == 'bsl'), r.base[1] == b, r.base[2] == blen(b)))]


class DropSlow(ArcC):
    def post(self, cx):
        E = evs(cx.st)
        p = self.block(cx)
        return [('frees the block, once, and does nothing else',
                 And(B(len(E) == 1 and E[0][0] == 'free'), E[0][1] == p.base[1], B(E[0][3] == () and E[0][2] is p.base[2])))]


class Unique(ArcC):
    def value(self, cx):
        L = [e for e in evs(cx.st) if e[0] == 'load']
        return [('true only if an Acquire load of the count returned 1',
                 Implies(cx.ret, Or(*[And(B(e[2] in ACQ), e[3] == 1) for e in L]) if L else B(False))),
                ('true if the count is 1', Implies(And(*[e[3] == 1 for e in L]) if L else B(True), cx.ret))]


class GetMut(ArcC):
    def value(self, cx):
        L = [e for e in evs(cx.st) if e[0] == 'load']
        some, v = opt(cx.ret)
        c = [('exclusive access only if an Acquire load of the count returned 1',
              Implies(some, Or(*[And(B(e[2] in ACQ), e[3] == 1) for e in L]) if L else B(False))),
             ('given if the count is 1', Implies(And(*[e[3] == 1 for e in L]) if L else B(True), some))]
        if v is not None:
            c.append(('to the data of the same block', Implies(some, same(cx, v, self.block(cx).base[1], D, None))))
        return c


class PtrEq(ArcC):
    def value(self, cx):
        a, b = [cx.ex.load(cx.st0, x).f[0] for x in cx.a]
        return [('the same block', cx.ret == (abase(a.base[1]) == abase(b.base[1])))]


class WithArc(ArcC):
    def value(self, cx):
        E = [e for e in evs(cx.st) if e[0] == 'callback']
        b = self.block(cx).base[1]
        ok = len(E) == 1 and isinstance(E[0][1], Agg) and E[0][1].ty == 'Arc'
        return [('the callback runs once, on a handle to the same block', And(B(ok), same(cx, E[0][1].f[0], b, N, True)) if ok else B(False))]


def reg(key, o, props='P16 P17 P02'):
    o.key, o.props = key, tuple(props.split())
    CONTRACTS[key] = o


class TextC(ArcC):
    def value(self, cx):
        b = self.block(cx).base[1]
        r = cx.ret
        return [('all bytes of the token, as a string', And(B(isinstance(r, Ptr) and r.base[0] == 'bstr'), r.base[1] == b, r.base[2] == blen(b)))]


reg('GreenTokenData::text', TextC())
reg('HeaderSlice::slice', SliceC())
reg('GreenNodeData::slice', SliceC())
reg('Arc::drop_slow', DropSlow())
reg('Arc::is_unique', Unique())
reg('Arc::get_mut', GetMut())
reg('Arc::ptr_eq', PtrEq())
reg('ThinArc::with_arc', WithArc())


# ---------------------------------------------------------------- construction
class Make(ArcC):
    """count 1, the header, the length and every item of the iterator in order; all of it inside the allocation"""

    def args(self, ex, st, f):
        st.add(szT >= 0, szT <= 2 ** 63 - 1, alB >= 1, alB <= 2 ** 29)
        return [Opq('H', ex.sym('header')), Opq('I', ex.sym('items'))]

    panics_state = True

    def panics(self, cx, msg, st):
        # only a zero-sized item type, a size beyond the address space, or an iterator that does not keep to its len
        n = st.gh.get('n')
        if n is None:
            return szT == 0
        k = z3.Int('mp!%d' % cx.ex.ctr)
        cx.ex.ctr += 1
        return Or(SLICE_OFF() + szT * n + alB - 1 > USZ, SLICE_OFF() > USZ, Not(st.gh.get('layout_ok', z3.BoolVal(True))),
                  z3.Exists([k], And(k >= 0, k < n, Not(iter_some(k)))), iter_some(n), iter_some(n + 1))

    def post(self, cx):
        m = cx.st.gh['mem']
        r = cx.ret.f[0]
        k = z3.Int('mk!%d' % cx.ex.ctr)
        cx.ex.ctr += 1
        n = cx.st.gh['n']
        c = m['count']
        return [('returns the block that was allocated', And(r.base[1] == m['b'], B(r.path == ()))),
                ('one unit', B(False) if c is None else c.f[0] == 1),
                ('the header', B(False) if m['header'] is None else m['header'].t == cx.a[0].t),
                ('the length is the number of items', B(False) if m['length'] is None else m['length'] == n),
                ('the iterator gave exactly that many items', And(z3.ForAll([k], Implies(And(k >= 0, k < n), iter_some(k))), Not(iter_some(n)))),
                ('every item is stored, in order', z3.ForAll([k], Implies(And(k >= 0, k < n), And(z3.Select(m['init'], k), z3.Select(m['slots'], k) == iter_item(k))))),
                ('the length, header and count lie inside the allocation', m['size'] >= SLICE_OFF())]


class MakeInv:
    def parts(self, c):
        st = c.st
        it = c.get('iter')
        m = st.gh['mem']
        cur = c.get('current')
        return it, m, cur, st.gh.get('pos', I(0)), st.gh['n']

    def inv(self, c):
        it, m, cur, pos, n = self.parts(c)
        lo, hi = it.lo, it.hi
        k = z3.Int('mi!%d' % c.ex.ctr)
        c.ex.ctr += 1
        ix = cur.path[2][1]
        return [('the pointer, the counter and the iterator are at the same item',
                 And(ix == lo, pos == lo, hi == n, lo >= 0, lo <= n, cur.base[1] == m['b'])),
                ('all items before it are stored',
                 z3.ForAll([k], Implies(And(k >= 0, k < lo), And(iter_some(k), z3.Select(m['init'], k), z3.Select(m['slots'], k) == iter_item(k)))))]

    def havoc(self, c):
        e = c.at_entry('iter')
        lo = c.ex.sym('i')
        c.set('iter', e.with_(lo=lo))
        cur = c.at_entry('current')
        c.set('current', Ptr(cur.base, cur.path[:2] + (('ix', c.ex.sym('cur')),)))
        m = dict(c.st.gh['mem'])
        m['slots'] = z3.Array('slots!%d' % c.ex.ctr, z3.IntSort(), z3.IntSort())
        m['init'] = z3.Array('init!%d' % c.ex.ctr, z3.IntSort(), z3.BoolSort())
        c.ex.ctr += 1
        c.st.gh['mem'] = m
        c.st.gh['pos'] = c.ex.sym('pos')


reg('ThinArc::from_header_and_iter', Make())


def install(world):
    world.invs[('ThinArc::from_header_and_iter', 0)] = MakeInv()


ASSUME = {'P17': ['the meta-theorem of atomic reference counting: a program that follows the protocol of spec_arc on every path has no use after free, no double free and no data race on the block (C11 release/acquire); orderings are checked syntactically per path, not executed'],
          'P16': ['deallocation with the layout of the fat pointer of the stored length is the layout that was allocated (repr(C), size rounded up to the alignment)']}

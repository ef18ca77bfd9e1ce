"""The logical world: green trees, red records, ghost functions, and the
trusted models of std / text-size / countme (each use is reported)."""
import re
import z3
from exec import *
from exec import I, B, And, Or, Implies, Not
import models as stdm

Int, Bool = z3.IntSort(), z3.BoolSort()
F = z3.Function
# ---- green trees (identity = heap address; structure is immutable)
isnode = F('g_isnode', Int, Bool)
kind = F('g_kind', Int, Int)
glen = F('g_len', Int, Int)
gn = F('g_n', Int, Int)
ch = F('g_ch', Int, Int, Int)
rel = F('g_rel', Int, Int, Int)
gtext = F('g_text', Int, Int)          # abstract text of a green element (string id)
# derived measures of the subtree
ntok = F('g_ntok', Int, Int)           # number of token leaves
ptok = F('g_ptok', Int, Int, Int)      # ... in the first i children
nsz = F('g_nsz', Int, Int)             # number of nodes (tokens not counted)
pnsz = F('g_pnsz', Int, Int, Int)
esz = F('g_esz', Int, Int)             # number of elements
pesz = F('g_pesz', Int, Int, Int)
strlen = F('str_len', Int, Int)

ARR = {'rc': Int, 'P': Int, 'I': Int, 'G': Int, 'M': Bool, 'O': Int, 'first': Int, 'next': Int, 'prev': Int,
       # ghost
       'A': Int, 'root': Int, 'T': Int, 'E': Int, 'N': Int, 'D': Int, 'live': Bool}
FIELD = {'rc': 'rc', 'parent': 'P', 'index': 'I', 'mutable': 'M', 'offset': 'O', 'first': 'first', 'next': 'next', 'prev': 'prev'}


def init_heap(st):
    for k, s in ARR.items():
        st.H[k] = z3.Array('H_' + k, Int, s)


UF = False       # heap layer: reads of unmodified arrays are applications of uninterpreted functions


def _uf(a, t):
    if a.decl().kind() != z3.Z3_OP_UNINTERPRETED:
        raise Unsupported('read of a computed array')
    return z3.Function('at_' + a.decl().name(), z3.IntSort(), a.sort().range())(t)


def sel(a, t):
    """a[t], reads over writes expanded"""
    t = I(t)
    ws = []
    read = _uf if UF else z3.Select
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        i = a.arg(1)
        if i.eq(t):
            r = a.arg(2)
            break
        ws.append((i, a.arg(2)))
        a = a.arg(0)
    else:
        r = read(a, t)
    for i, v in reversed(ws):
        r = z3.If(t == i, v, r)
    return r


def h(st, f, t):
    return sel(st.H[f], t)


class Rec:
    """record accessors in a state"""

    def __init__(self, st, t):
        self.st, self.t = st, t

    def __getattr__(self, f):
        return h(self.st, f, self.t)


def rp(t):
    return Ptr(('rec', I(t)))


def gfacts(g):
    return And(g > 0, glen(g) >= 0, glen(g) <= U32, gn(g) >= 0, gn(g) < U32, kind(g) >= 0, kind(g) <= 65535,
               Implies(Not(isnode(g)), gn(g) == 0), rel(g, 0) == 0,
               Implies(isnode(g), rel(g, gn(g)) == glen(g)),
               ntok(g) == z3.If(isnode(g), ptok(g, gn(g)), 1), ptok(g, 0) == 0, ntok(g) >= 0,
               nsz(g) == z3.If(isnode(g), 1 + pnsz(g, gn(g)), 0), pnsz(g, 0) == 0, nsz(g) >= 0,
               esz(g) == z3.If(isnode(g), 1 + pesz(g, gn(g)), 1), pesz(g, 0) == 0, esz(g) >= 1)


def cfacts(g, i):
    c = ch(g, i)
    return Implies(And(isnode(g), i >= 0, i < gn(g)),
                   And(rel(g, i) >= 0, rel(g, i) + glen(c) == rel(g, i + 1), rel(g, i + 1) <= glen(g), rel(g, i + 1) <= rel(g, gn(g)),
                       ptok(g, i) >= 0, ptok(g, i + 1) == ptok(g, i) + ntok(c), ptok(g, i + 1) <= ptok(g, gn(g)),
                       pnsz(g, i) >= 0, pnsz(g, i + 1) == pnsz(g, i) + nsz(c), pnsz(g, i + 1) <= pnsz(g, gn(g)),
                       pesz(g, i) >= 0, pesz(g, i + 1) == pesz(g, i) + esz(c), pesz(g, i + 1) <= pesz(g, gn(g)),
                       gfacts(c)))


def valid(st, t):
    """type invariant of a red record"""
    r = Rec(st, t)
    p = Rec(st, r.P)
    q = Rec(st, r.root)
    return And(q.P == 0, q.root == r.root, q.T == 0, q.N == 0, q.E == 0, q.A == 0, 
               r.T >= 0, r.T + ntok(r.G) <= ntok(q.G), r.N >= 0, r.N + 2 * nsz(r.G) <= 2 * nsz(q.G),
               r.E >= 0, r.E + 2 * esz(r.G) <= 2 * esz(q.G), r.A + glen(r.G) <= glen(q.G),
               t > 0, r.P >= 0, r.G > 0, gfacts(r.G), r.A >= 0, r.A + glen(r.G) <= U32, r.root > 0, r.D >= 0,
               r.I >= 0, r.I < U32, r.live,
               Implies(r.P == 0, And(r.A == 0, r.root == t, r.T == 0, r.E == 0, r.N == 0, r.D == 0,
                                     Implies(Not(r.M), And(r.O == 0, r.I == 0)))),
               Implies(r.P != 0, And(r.P != t, isnode(p.G), r.I < gn(p.G), r.G == ch(p.G, r.I),
                                     r.A == p.A + rel(p.G, r.I), r.root == p.root, r.M == p.M, r.D == p.D + 1, p.D >= 0,
                                     r.T == p.T + ptok(p.G, r.I),
                                     r.N == p.N + 1 + 2 * pnsz(p.G, r.I),
                                     r.E == p.E + 1 + 2 * pesz(p.G, r.I),
                                     Implies(Not(r.M), r.O == r.A), cfacts(p.G, r.I), gfacts(p.G),
                                     p.A >= 0, p.A + glen(p.G) <= U32)))


class World:
    def __init__(self, prog, defs, repo):
        self.P, self.D = prog, defs
        self.invs = {}          # (fn key, loop idx) -> invariant
        self.searches = {}      # (fn key) -> search invariant
        self.folds = {}         # (fn key) -> invariant of a stateful closure run over a sequence
        self.intercepts = []
        self.freshers = []      # (ex, type, state, base, guard) -> value of a type known to a spec module
        self.strs = {}
        self.trusted = set()
        self.heapmode = False
        self.delegate = False
        self.opaque_pure = {}

    # ------------------------------------------------ types
    def fresh(self, ex, t, st, base, guard):
        s = t.s
        for f in self.freshers:
            r = f(ex, t, st, base, guard)
            if r is not None:
                return r
        if t.kind == 'adt':
            n = t.name
            if n in ('cursor::SyntaxNode', 'cursor::SyntaxToken'):
                r = ex.sym(base)
                st.add(Implies(guard, And(valid(st, r), isnode(h(st, 'G', r)) == (n == 'cursor::SyntaxNode'))))
                return Agg(n, [rp(r)], ['ptr'])
            if n == 'text_size::TextSize' or n == 'TextSize':
                x = ex.sym(base)
                st.add(Implies(guard, And(x >= 0, x <= U32)))
                return x
            if n in ('text_size::TextRange', 'TextRange'):
                a, b = ex.sym(base + '.start'), ex.sym(base + '.end')
                st.add(Implies(guard, And(a >= 0, a <= b, b <= U32)))
                return Agg('TextRange', [a, b], ['start', 'end'])
            if n in ('green::node::GreenNode', 'green::token::GreenToken'):
                g = ex.sym(base)
                st.add(Implies(guard, And(gfacts(g), isnode(g) == n.endswith('GreenNode'))))
                return Agg(last_seg(n), [Ptr(('garc', g))], ['ptr'])
            if n == 'green::node::Children':
                return Agg('Children', [self.fresh_slice(ex, st, base, guard)], ['raw'])
            if n == 'green::SyntaxKind':
                x = ex.sym(base)
                st.add(Implies(guard, And(x >= 0, x <= 65535)))
                return Agg('SyntaxKind', [x], ['0'])
            if n == 'std::slice::Iter' and t.args and t.args[0].s == 'green::node::GreenChild':
                return self.fresh_slice(ex, st, base, guard)
            if n in ('std::string::String',):
                return Opq('String', ex.sym(base))
            if re.match(r'^[A-Z][A-Za-z0-9]*$', n) and not t.args and n not in ('TextSize',):
                return Opq(n, ex.sym(base))
        if t.kind in ('ref', 'ptr'):
            i = t.args[0]
            if i.kind == 'adt':
                if i.name == 'cursor::NodeData':
                    r = ex.sym(base)
                    st.add(Implies(guard, valid(st, r)))
                    return rp(r)
                if i.name in ('green::node::GreenNodeData', 'green::token::GreenTokenData'):
                    g = ex.sym(base)
                    isn = i.name.endswith('NodeData')
                    st.add(Implies(guard, And(gfacts(g), isnode(g) == isn)))
                    return Ptr(('gn' if isn else 'gt', g))
                if i.name == 'green::node::GreenChild':
                    g, k = ex.sym(base), ex.sym(base + '.i')
                    st.add(Implies(guard, And(gfacts(g), isnode(g), k >= 0, k < gn(g), cfacts(g, k))))
                    return Ptr(('gc', g, k))
        return None

    def fresh_slice(self, ex, st, base, guard):
        g, lo, hi = ex.sym(base), ex.sym(base + '.lo'), ex.sym(base + '.hi')
        st.add(Implies(guard, And(gfacts(g), isnode(g), lo >= 0, lo <= hi, hi <= gn(g))))
        return stdm.It('slice', src=('green', g), lo=lo, hi=hi)

    def field_ty(self, sn, name, ty):
        """qualify the unqualified type names used in struct definitions"""
        return QUAL.qualify(sn, ty)

    def param_ty(self, ex, ct, f, i, ty):
        return ty

    def ret_ty(self, ex, ct, f, args):
        return f.ret

    # ------------------------------------------------ memory
    def load(self, ex, st, ptr):
        b = ptr.base
        if b[0] == 'opq' and not ptr.path:
            return b[1]
        if b[0] == 'rec':
            t = b[1]
            if not ptr.path:
                return self.rec_value(st, t)
            f, rest = ptr.path[0], ptr.path[1:]
            v = self.rec_field(ex, st, t, f)
            for p in rest:
                v = ex.proj(v, p)
            return v
        if b[0] in ('gn', 'gt'):
            return self.green_path(ex, st, b, ptr.path)
        if b[0] == 'gc':
            v = self.child_value(st, b[1], b[2])
            for p in ptr.path:
                v = ex.proj(v, p)
            return v
        raise Unsupported('load %r' % (ptr,))

    def child_value(self, st, g, i):
        c = ch(g, i)
        st.add(cfacts(g, i))
        return SEnum('GreenChild', z3.If(isnode(c), z3.IntVal(0), z3.IntVal(1)),
                     {0: (rel(g, i), Agg('GreenNode', [Ptr(('garc', c))])),
                      1: (rel(g, i), Agg('GreenToken', [Ptr(('garc', c))]))})

    def green_path(self, ex, st, b, path):
        names = tuple(path)
        g = b[1]
        if names == ('header', 'kind') or names == ('data', 'header', 'kind'):
            return Agg('SyntaxKind', [kind(g)], ['0'])
        if names == ('header', 'text_len') or names == ('data', 'header', 'text_len'):
            return glen(g)
        if names in (('header',), ('data', 'header')):
            c = Agg('Count', ())
            if b[0] == 'gn':
                return Agg('GreenNodeHead', [Agg('SyntaxKind', [kind(g)], ['0']), glen(g), c], ['kind', 'text_len', '_c'])
            return Agg('GreenTokenHead', [Agg('SyntaxKind', [kind(g)], ['0']), c], ['kind', '_c'])
        if names == ('data', 'length'):
            return z3.If(isnode(g), gn(g), glen(g))
        if names[-1:] == ('_c',):
            return Agg('Count', ())
        if len(names) > 1 and names[-1] == 0 and 'kind' in names:
            return ex.proj(self.green_path(ex, st, b, names[:-1]), 0)
        raise Unsupported('green load %s' % (path,))

    def rec_value(self, st, t):
        return Agg('NodeData*', [rp(t)])

    def learn(self, st, t, guard=True):
        key = ('valid', str(t))
        if key in st.known:
            return
        st.known = st.known | {key}
        st.add(Implies(guard, valid(st, t)))

    def rec_field(self, ex, st, t, f):
        if f == 'green':
            g = h(st, 'G', t)
            return SEnum('Green', z3.If(isnode(g), z3.IntVal(0), z3.IntVal(1)), {0: (Ptr(('gn', g)),), 1: (Ptr(('gt', g)),)})
        if f == 'parent':
            p = h(st, 'P', t)
            if not self.heapmode:
                self.learn(st, p, p != 0)
            return SEnum('Option', z3.If(p == 0, z3.IntVal(0), z3.IntVal(1)), {0: (), 1: (rp(p),)})
        if f in ('first', 'next', 'prev'):
            return rp(h(st, f, t))
        if f in FIELD:
            v = h(st, FIELD[f], t)
            if f in ('rc', 'index', 'offset'):
                st.add(v >= 0, v <= U32)     # the field is a u32
            return v
        if f == '_c':
            return Agg('Count', ())
        raise Unsupported('record field %s' % f)

    def store(self, ex, st, ptr, val):
        b = ptr.base
        if b[0] == 'rec':
            t, f = b[1], ptr.path[0]
            if f == 'green':
                if isinstance(val, Ptr):
                    self.hset(st, 'G', t, val.base[1])
                    return
                if isinstance(val, SEnum) and val.conc():
                    self.hset(st, 'G', t, val.vs[val.d][0].base[1])
                    return
                raise Unsupported('store green')
            if f == 'parent':
                d = val
                x = z3.If(I(d.d) == 0, z3.IntVal(0), d.vs[1][0].base[1]) if 1 in d.vs and not d.conc() else (
                    z3.IntVal(0) if d.d == 0 else d.vs[1][0].base[1])
                self.hset(st, 'P', t, x)
                return
            if f in ('first', 'next', 'prev'):
                self.hset(st, f, t, self.rec_of(val))
                return
            if f in FIELD:
                self.hset(st, FIELD[f], t, val)
                return
        raise Unsupported('store %r' % (ptr,))

    def hset(self, st, f, t, v):
        st.H[f] = z3.Store(st.H[f], t, v)

    def rec_of(self, v):
        """record id a pointer-like value denotes"""
        if isinstance(v, Agg) and v.ty in ('cursor::SyntaxNode', 'cursor::SyntaxToken'):
            v = v.f[0]
        if isinstance(v, Ptr) and isinstance(v.base, tuple) and v.base[0] == 'rec' and not v.path:
            return v.base[1]
        raise Unsupported('not a record pointer: %r' % (v,))

    def field(self, ex, st, cur, n, ty):
        b = cur.base
        if isinstance(b, tuple):
            if b[0] == 'rec' and not cur.path:
                return Ptr(b, (self.D.structs['NodeData'][1][n],))
            if b[0] in ('gn', 'gt'):
                # names along the representation
                lastn = cur.path[-1] if cur.path else None
                if lastn is None:
                    return Ptr(b, cur.path + ('data',))
                if lastn == 'data':
                    return Ptr(b, cur.path + (self.D.structs['HeaderSlice'][1][n],))
                if lastn == 'header':
                    sn = 'GreenNodeHead' if b[0] == 'gn' else 'GreenTokenHead'
                    return Ptr(b, cur.path + (self.D.structs[sn][1][n],))
        return Ptr(b, cur.path + (n,))

    def deref(self, ex, st, v):
        if isinstance(v, Opq) and v.ty.startswith(('&', '*')):
            return Ptr(('opq', v))
        raise Unsupported('deref of %r' % (v,))

    def refof(self, ex, st, p):
        """&place: pointers to places; &*(thin pointer) normalises to the pointer itself"""
        if isinstance(p.base, tuple) and p.base[0] == 'opq' and not p.path:
            return p.base[1]
        return p

    def proj(self, ex, v, p):
        return None

    def discr(self, ex, st, v):
        return None

    def veq(self, ex, a, b):
        return None

    def bitop(self, ex, op, a, b, ty):
        return None

    def ptr_eq(self, ex, a, b):
        x, y = a.base, b.base
        if isinstance(x, tuple) and isinstance(y, tuple) and a.path == b.path:
            if x[0] == y[0] and x[0] in ('rec', 'gn', 'gt', 'garc') or x[0] in ('gn', 'gt', 'addr') and y[0] in ('gn', 'gt', 'addr'):
                return x[1] == y[1]
            if x[0] == y[0] == 'gc':
                return And(x[1] == y[1], x[2] == y[2])
        if isinstance(x, tuple) != isinstance(y, tuple):
            return z3.BoolVal(False)
        return None

    def cast(self, ex, st, v, ty, kind):
        if isinstance(v, Ptr) and isinstance(v.base, tuple):
            return v
        return v

    def ptr_metadata(self, ex, st, v):
        raise Unsupported('ptr metadata')

    def length(self, ex, st, p):
        raise Unsupported('len')

    def mkenum(self, ex, st, v):
        return v

    def mkstruct(self, ex, st, v):
        return v

    def contract(self, ex, f):
        ct = ex.C.get(f.key)
        if ct is not None and hasattr(ct, 'accepts') and not ct.accepts(f):
            return None
        return ct

    def strlit(self, ex, s):
        if s not in self.strs:
            self.strs[s] = z3.IntVal(-1000 - len(self.strs))
        return Opq('&str', self.strs[s])

    def const(self, ex, st, s):
        if s.endswith('text_size::TextSize::default') or s == 'text_size::TextSize::ZERO':
            return None
        if s.startswith('std::marker::PhantomData'):
            return Agg('PhantomData', ())
        return None

    # ------------------------------------------------ handles
    HANDLES = ('cursor::SyntaxNode', 'cursor::SyntaxToken')

    def handles(self, v, guard=True):
        """[(guard, kind, id term)] of the owned handles inside a value"""
        if isinstance(v, Agg):
            if v.ty in self.HANDLES:
                return [(guard, 'red', self.rec_of(v))]
            if v.ty in ('GreenNode', 'GreenToken'):
                return [(guard, 'green', v.f[0].base[1])] if isinstance(v.f[0], Ptr) else []
            if v.ty == 'ManuallyDrop':
                return []
            out = []
            for x in v.f:
                out += self.handles(x, guard)
            return out
        if isinstance(v, SEnum):
            out = []
            for i, fs in v.vs.items():
                for x in fs:
                    out += self.handles(x, And(guard, v.is_(i)))
            return out
        if isinstance(v, stdm.It):
            out = []
            for x in v.values():
                out += self.handles(x, guard)
            return out
        return []

    def needs_drop(self, v):
        return bool(self.handles(v))

    def drop(self, ex, st, v):
        if isinstance(v, Agg) and v.ty in self.HANDLES:
            return self.drop_handle(ex, st, v)
        if isinstance(v, Agg) and v.ty in ('GreenNode', 'GreenToken'):
            st.bal.append((True, 'green', v.f[0].base[1], -1))
            return [st]
        if isinstance(v, stdm.It):
            states = [st]
            for x in v.values():
                nx = []
                for s in states:
                    nx += ex.drop_value(s, x)
                states = nx
            return states
        return None

    def drop_handle(self, ex, st, v):
        st.bal.append((True, 'red', self.rec_of(v), -1))
        self.havoc_rc(ex, st)
        ex.used.add('<%s as Drop>::drop' % v.ty)
        return [st]

    def drop_leaf(self, ex, st, v):
        return None

    def contract_balance(self, ex, ct, cx):
        """callers' view of a contract: by-value handles are consumed, returned ones produced"""
        st = cx.st
        for i, a in enumerate(cx.a):
            for g, k, t in self.handles(a):
                st.bal.append((g, k, t, -1))
        for i in ct.modifies:
            for g, k, t in self.handles(ex.load(cx.st0, cx.a[i])):
                st.bal.append((g, k, t, -1))
            for g, k, t in self.handles(ex.load(cx.st, cx.a[i])):
                st.bal.append((g, k, t, +1))
        for g, k, t in self.handles(cx.ret):
            st.bal.append((g, k, t, +1))

    def rc_effect(self, ex, ct, cx, evs):
        """reference counts after a call: exact where the contract says so, unknown otherwise"""
        if not any(e[1] == 'red' for e in evs):
            return
        if getattr(ct, 'rc_exact', False):
            for g, k, t, d in evs:
                if k == 'red':
                    a = cx.st.H['rc']
                    cx.st.H['rc'] = z3.If(B(g), z3.Store(a, t, z3.Select(a, t) + d), a) if not z3.is_true(B(g)) else \
                        z3.Store(a, t, z3.Select(a, t) + d)
        else:
            self.havoc_rc(ex, cx.st)

    def havoc_rc(self, ex, st):
        st.H['rc'] = z3.Array('H_rc!%d' % ex.ctr, Int, Int)
        ex.ctr += 1

    # ------------------------------------------------ calls
    def call_opaque(self, ex, st, f, args):
        return stdm.call_opaque(self, ex, st, f, args)

    def pick(self, ex, f, c, args):
        # several impls with the same key: match by the full type text of the trait's argument / self
        want = re.sub(r"'\w+ ?", '', c.raw)
        p0 = f.params[0][1] if f.params else ''
        m = re.match(r'<(.*) as ', want, re.S)
        a = re.search(r' as (?:[\w:]*::)?PartialEq<(.*)>>::', want, re.S)
        if a and len(f.params) == 2 and f.params[1][1].replace("'_ ", '') != '&' + a.group(1):
            return False
        if m and p0.replace("'_ ", '') in ('&' + m.group(1), m.group(1)):
            return True
        if m and f.ret == m.group(1):
            return True
        return False

    def resolve(self, ex, st, c, args, fr):
        return stdm.resolve(self, ex, st, c, args, fr)

    def intercept(self, ex, st, f, args):
        for h_ in self.intercepts:
            r = h_(ex, st, f, args)
            if r is not None:
                return r
        if self.delegate:
            import spec_api
            return spec_api.intercept(ex, st, f, args)
        return None

    def crate_model(self, ex, st, f, c, args):
        return stdm.crate_model(self, ex, st, f, c, args)

    def std(self, ex, st, c, args, fr):
        return stdm.std(self, ex, st, c, args, fr)

    def loop_inv(self, ex, fr, key, idx):
        return self.invs.get((key, idx))


class Qual:
    """resolve unqualified type names of struct definitions to the MIR spelling"""
    MAP = {'GreenNode': 'green::node::GreenNode', 'GreenToken': 'green::token::GreenToken',
           'SyntaxKind': 'green::SyntaxKind', 'GreenNodeData': 'green::node::GreenNodeData',
           'GreenTokenData': 'green::token::GreenTokenData', 'GreenChild': 'green::node::GreenChild',
           'TextRange': 'text_size::TextRange', 'TextSize': 'text_size::TextSize', 'Cell': 'std::cell::Cell',
           'NodeOrToken': 'utility_types::NodeOrToken', 'WalkEvent': 'utility_types::WalkEvent',
           'NodeCache': 'green::node_cache::NodeCache', 'CowMut': 'cow_mut::CowMut',
           'SyntaxNodePtr': 'ast::SyntaxNodePtr', 'NodeData': 'cursor::NodeData'}

    def qualify(self, sn, ty):
        api = sn.startswith('api::') or sn in ('AstPtr', 'AstChildren', 'SyntaxNodePtr')

        def r(m):
            w = m.group(0)
            if w in AMBIG:
                return ('api::' if api else 'cursor::') + w
            if w == 'SyntaxElement':
                return ('utility_types::NodeOrToken<%s, %s>' % (('api::SyntaxNode<L>', 'api::SyntaxToken<L>') if api
                                                                else ('cursor::SyntaxNode', 'cursor::SyntaxToken')))
            return self.MAP.get(w, w)
        ty = re.sub(r'\bptr::NonNull\b', 'std::ptr::NonNull', ty)
        ty = re.sub(r'\bcursor::(\w+)', r'cursor__\1', ty)
        ty = re.sub(r'(?<![:\w])[A-Z]\w*(?!::)', r, ty)
        return ty.replace('cursor__', 'cursor::')


QUAL = Qual()

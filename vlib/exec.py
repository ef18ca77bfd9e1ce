"""Symbolic executor / verification-condition generator over rustc MIR.

A function under contract is executed symbolically from a state that satisfies
its precondition; calls to functions with a contract use the contract (never
the body), calls to crate functions without a contract are executed in place,
calls into std/text-size use the trusted models of std.py.  Loops are cut at
their invariants.  Every return path yields one obligation per postcondition,
every reachable panic an obligation."""
import re, time, sys
import z3
from mir import (Program, Ty, parse_ty, split_top, find_close, AMBIG, ALIAS, CONCRETE)

sys.setrecursionlimit(20000)
U32 = 2 ** 32 - 1
BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64,
        'isize': 64, 'i128': 128, 'char': 32}


class Unsupported(Exception):
    pass


def I(x):
    return z3.IntVal(x) if isinstance(x, int) and not isinstance(x, bool) else x


def B(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def And(*a):
    a = [x for x in a if not (z3.is_true(B(x)))]
    return z3.And(*[B(x) for x in a]) if len(a) != 1 else B(a[0])


Or = lambda *a: z3.Or(*[B(x) for x in a])
Implies = lambda a, b: z3.Implies(B(a), B(b))
Not = lambda a: z3.Not(B(a))


# ------------------------------------------------------------ values
class Agg:
    __slots__ = ('ty', 'f', 'names')

    def __init__(self, ty, f, names=None):
        self.ty, self.f, self.names = ty, tuple(f), names

    def __repr__(self):
        return '%s%r' % (self.ty, self.f)

    def with_(self, i, v):
        return Agg(self.ty, self.f[:i] + (v,) + self.f[i + 1:], self.names)


class SEnum:
    """d: python int (variant index) or z3 term; vs: {variant index: fields}"""
    __slots__ = ('ty', 'd', 'vs')

    def __init__(self, ty, d, vs):
        self.ty, self.d, self.vs = ty, d, vs

    def __repr__(self):
        return '%s#%s%r' % (self.ty, self.d, self.vs)

    def conc(self):
        return isinstance(self.d, int)

    def is_(self, i):
        if isinstance(self.d, int):
            return z3.BoolVal(self.d == i)
        return self.d == i


class Opq:
    __slots__ = ('ty', 't')

    def __init__(self, ty, t):
        self.ty, self.t = ty, t

    def __repr__(self):
        return 'Opq(%s,%s)' % (self.ty, self.t)


class FnItem:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Fn(%s)' % self.name


class Ptr:
    __slots__ = ('base', 'path')

    def __init__(self, base, path=()):
        self.base, self.path = base, tuple(path)

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.base, self.path)


class Variant:
    """(P as V): transient"""
    __slots__ = ('e', 'i')

    def __init__(self, e, i):
        self.e, self.i = e, i


UNIT = Agg('()', ())
NONE = lambda ty='Option': SEnum('Option', 0, {0: (), })
SOME = lambda v: SEnum('Option', 1, {1: (v,)})
ENUMS = {
    'Option': [('None', 0), ('Some', 1)],
    'Result': [('Ok', 0), ('Err', 1)],
    'ControlFlow': [('Continue', 0), ('Break', 1)],
    'Ordering': [('Less', -1), ('Equal', 0), ('Greater', 1)],
    'Cow': [('Borrowed', 0), ('Owned', 1)],
}
STDPARAMS = {'Option': ['T'], 'Result': ['T', 'E'], 'ControlFlow': ['B', 'C']}
STDFIELDS = {'Option': [[], ['T']], 'Result': [['T'], ['E']], 'ControlFlow': [['C'], ['B']]}


class State:
    __slots__ = ('pc', 'mem', 'H', 'bal', 'ev', 'gh', 'known')

    def __init__(self):
        self.pc, self.mem, self.H, self.bal, self.ev, self.gh, self.known = [], {}, {}, [], [], {}, frozenset()

    def fork(self):
        s = State()
        s.pc, s.mem, s.H, s.bal, s.ev, s.gh, s.known = (list(self.pc), dict(self.mem), dict(self.H), list(self.bal),
                                                       list(self.ev), dict(self.gh), self.known)
        return s

    def add(self, *c):
        for x in c:
            x = B(x)
            if not z3.is_true(x):
                self.pc.append(x)
        return self


class Defs:
    """struct and enum definitions of the crate, read from the source on every run"""

    def __init__(self, repo, files):
        self.structs, self.enums = {}, {}
        import os
        for f in files:
            s = open(os.path.join(repo, f)).read()
            mod = 'api' if f.endswith(('api.rs', 'ast.rs', 'serde_impls.rs')) else 'cursor'
            i = s.find('#[cfg(test)]')
            s = re.sub(r'//[^\n]*', '', s)
            s = re.sub(r'#\[[^\]]*\]', '', s)
            for m in re.finditer(r'\b(struct|enum)\s+(\w+)', s):
                kind, name = m.groups()
                j = m.end()
                params = []
                k = j
                while k < len(s) and s[k] in ' \n':
                    k += 1
                if k < len(s) and s[k] == '<':
                    e = find_close(s, k)
                    params = [p.split(':')[0].strip() for p in split_top(s[k + 1:e])]
                    params = [p for p in params if not p.startswith("'")]
                    k = e + 1
                # skip where
                mm = re.compile(r'[\s\S]*?([{(;])').match(s, k)
                if not mm:
                    continue
                k = mm.end() - 1
                key = (mod + '::' + name) if name in AMBIG else name
                if s[k] == ';':
                    if kind == 'struct':
                        self.structs.setdefault(key, (params, [], []))
                    continue
                e = find_close(s, k)
                body = s[k + 1:e]
                if kind == 'struct':
                    names, tys = self._fields(body, s[k] == '(')
                    self.structs.setdefault(key, (params, names, tys))
                else:
                    vs = []
                    for v in split_top(body):
                        v = v.strip()
                        mv = re.match(r'(\w+)\s*([({])?', v)
                        if mv.group(2):
                            b = v[mv.end():find_close(v, mv.end() - 1)]
                            n, t = self._fields(b, mv.group(2) == '(')
                        else:
                            n, t = [], []
                        vs.append((mv.group(1), n, t))
                    self.enums.setdefault(key, (params, vs))
        for n, (p, vs) in self.enums.items():
            ENUMS[n] = [(v[0], i) for i, v in enumerate(vs)]

    @staticmethod
    def _fields(body, tup):
        names, tys = [], []
        for i, x in enumerate(split_top(body)):
            x = re.sub(r'^pub(\([^)]*\))?\s+', '', x.strip())
            if tup:
                names.append(str(i)); tys.append(x)
            else:
                n, t = x.split(':', 1)
                names.append(n.strip()); tys.append(t.strip())
        return names, tys


def last_seg(name):
    return name.split('::')[-1]


def subst_ty(s, env):
    if not env:
        return s
    return re.sub(r'\b[A-Za-z_]\w*\b', lambda m: env.get(m.group(0), m.group(0)), s)


class Callee:
    __slots__ = ('raw', 'self_ty', 'trait', 'path', 'method', 'gen', 'trait_full')

    def __init__(self, raw):
        self.raw = raw
        self.self_ty = self.trait = self.trait_full = None
        s = raw
        self.gen = []
        if s.startswith('<'):
            j = find_close(s, 0)
            p = split_top(s[1:j], ' as ')
            self.self_ty = p[0]
            if len(p) > 1:
                self.trait_full = p[1]
                self.trait = last_seg(re.sub(r'<.*$', '', p[1], flags=re.S))
            rest = s[j + 1:]
        else:
            rest = '::' + s
        segs = []
        gens = []
        i = 0
        while i < len(rest):
            assert rest.startswith('::', i), raw
            i += 2
            if rest[i] == '<':
                j = find_close(rest, i)
                inner = rest[i + 1:j]
                if inner.startswith('impl ') and rest.startswith('::', j + 1) and not rest.startswith('::{', j + 1):
                    segs.append('<' + inner + '>')
                    gens.append([])
                else:
                    gens[-1] = [x for x in split_top(inner) if not x.startswith("'")]
                i = j + 1
            elif rest[i] == '{':
                j = find_close(rest, i)
                segs.append(rest[i:j + 1])
                gens.append([])
                i = j + 1
            else:
                m = re.compile(r'[A-Za-z_0-9]+').match(rest, i)
                segs.append(m.group(0))
                gens.append([])
                i = m.end()
        self.method = segs[-1]
        self.gen = gens[-1]
        self.path = segs
        if self.self_ty is None and len(segs) >= 2:
            g = gens[-2]
            if segs[-2].startswith('<impl '):
                self.self_ty = segs[-2][6:-1]
                return
            self.self_ty = '::'.join(segs[:-1]) + ('<' + ', '.join(g) + '>' if g else '')


_callees = {}


def callee(raw):
    c = _callees.get(raw)
    if c is None:
        c = _callees[raw] = Callee(raw)
    return c


class Obl:
    __slots__ = ('name', 'pc', 'goal', 'kind', 'hints', 'tmo', 'ematch')

    def __init__(self, name, pc, goal, kind='post', hints=()):
        self.name, self.pc, self.goal, self.kind, self.hints = name, list(pc), goal, kind, list(hints)
        self.ematch = False


class Exec:
    def __init__(self, prog, defs, contracts, world):
        self.P, self.D, self.C, self.W = prog, defs, contracts, world
        self.ctr = 0
        self.cells = 0
        self.obls = []
        self.depth = 0
        self.used = set()       # contracts / trusted models relied on
        self.inlined = set()
        self.panic_ok = None
        self.cur = None         # key of the function being verified
        self.paths = 0
        self.deadline = None
        self.fnstack = []
        self.solver_s = 0.0
        self._abbr_mod = 'cursor'
        self.quiet = 0

    # -------------------------------------------------- symbols
    def sym(self, base, sort='int'):
        self.ctr += 1
        n = '%s!%d' % (base, self.ctr)
        return z3.Bool(n) if sort == 'bool' else z3.Int(n)

    def newcell(self, st, v):
        self.cells += 1
        st.mem[self.cells] = v
        return self.cells

    def alloc(self, st, v):
        return Ptr(self.newcell(st, v))

    # -------------------------------------------------- types
    def abbr(self, t):
        self.P.mod = 'cursor'
        return self.P.abbr(t)

    def enum_name(self, ty):
        """canonical enum name for a type string or None"""
        t = parse_ty(ty) if isinstance(ty, str) else ty
        if t.kind != 'adt':
            return None
        n = last_seg(t.name)
        if n in ENUMS and (n in STDFIELDS or n in ('Ordering', 'Cow') or n in self.D.enums):
            return n
        return None

    def struct_name(self, t):
        n = last_seg(t.name)
        if n in AMBIG:
            segs = t.name.split('::')
            n = (segs[0] if segs[0] in ('cursor', 'api') else 'cursor') + '::' + n
        return n if n in self.D.structs else None

    def struct_fields(self, tyname):
        """field names of crate struct by canonical name"""
        return self.D.structs[tyname][1]

    def fresh(self, ty, st, base='v', guard=True):
        """a fully symbolic value of a type; type invariants are assumed (under guard)"""
        t = parse_ty(ty) if isinstance(ty, str) else ty
        r = self.W.fresh(self, t, st, base, guard)
        if r is not None:
            return r
        k = t.kind
        s = t.s
        if s in BITS:
            x = self.sym(base)
            if s.startswith('u') or s == 'char':
                st.add(Implies(guard, And(x >= 0, x <= 2 ** BITS[s] - 1)))
            return x
        if s == 'bool':
            return self.sym(base, 'bool')
        if s == '()':
            return UNIT
        if k == 'tuple':
            return Agg('()', [self.fresh(a, st, base, guard) for a in t.args])
        if k in ('ref', 'ptr'):
            inner = t.args[0]
            if inner.s == 'str' or inner.kind == 'slice' or inner.s.startswith('dyn '):
                return Opq(s, self.sym(base))
            return self.alloc(st, self.fresh(inner, st, base, guard))
        if k == 'adt':
            n = last_seg(t.name)
            if n in ('Cell', 'NonNull', 'Box', 'ManuallyDrop', 'MaybeUninit'):
                return self.fresh(t.args[0], st, base, guard)
            if n == 'PhantomData':
                return Agg('PhantomData', ())
            if n in STDFIELDS:
                env = dict(zip(STDPARAMS[n], [a.s for a in t.args]))
                return self._fresh_enum(n, [[env[x] for x in v] for v in STDFIELDS[n]], st, base, guard)
            if n == 'Ordering':
                d = self.sym(base)
                st.add(Implies(guard, And(d >= 0, d <= 2)))
                return SEnum('Ordering', d, {0: (), 1: (), 2: ()})
            if n in self.D.enums and len(t.name.split('::')) > 1:
                ps, vs = self.D.enums[n]
                env = dict(zip(ps, [a.s for a in t.args]))
                return self._fresh_enum(n, [[subst_ty(x, env) for x in v[2]] for v in vs], st, base, guard)
            sn = self.struct_name(t) if len(t.name.split('::')) > 1 else None
            if sn:
                ps, names, tys = self.D.structs[sn]
                env = dict(zip(ps, [a.s for a in t.args]))
                return Agg(sn, [self.fresh(self.W.field_ty(sn, nm, subst_ty(x, env)), st, base + '.' + nm, guard)
                                for nm, x in zip(names, tys)], names)
        return Opq(s, self.sym(base))

    def _fresh_enum(self, n, vts, st, base, guard):
        d = self.sym(base + '?')
        st.add(Implies(guard, And(d >= 0, d < len(vts))))
        vs = {}
        for i, tys in enumerate(vts):
            vs[i] = tuple(self.fresh(x, st, base, And(guard, d == i)) for x in tys)
        return SEnum(n, d, vs)

    # -------------------------------------------------- memory
    def proj(self, v, p):
        if isinstance(v, Variant):
            e = v.e
            if isinstance(e, SEnum):
                if v.i not in e.vs:
                    raise Unsupported('projection into absent variant %s of %s' % (v.i, e))
                return e.vs[v.i][p]
            raise Unsupported('variant projection of %r' % (e,))
        if isinstance(p, tuple) and p[0] == 'v':
            if isinstance(v, SEnum):
                return Variant(v, self.variant_index(v.ty, p[1]))
            raise Unsupported('downcast of %r' % (v,))
        if isinstance(v, Agg):
            if isinstance(p, tuple):
                raise Unsupported('index into aggregate')
            if p >= len(v.f):
                raise Unsupported('field %s of %r' % (p, v))
            return v.f[p]
        if isinstance(v, Ptr) and p == 0:
            return v        # Unique/BoxRaw/NonNull wrappers are transparent
        r = self.W.proj(self, v, p)
        if r is not None:
            return r
        raise Unsupported('projection .%s of %r' % (p, v))

    def variant_index(self, en, name):
        m = re.match(r'variant#(\d+)', name)
        if m:
            return int(m.group(1))
        for i, (n, _) in enumerate(ENUMS[en]):
            if n == name:
                return i
        raise Unsupported('variant %s of %s' % (name, en))

    def upd(self, v, path, new):
        if not path:
            return new
        p = path[0]
        if isinstance(p, tuple) and p[0] == 'v':
            if not isinstance(v, SEnum):
                raise Unsupported('variant store into %r' % (v,))
            i = self.variant_index(v.ty, p[1])
            fs = list(v.vs[i])
            fs[path[1]] = self.upd(fs[path[1]], path[2:], new)
            vs = dict(v.vs)
            vs[i] = tuple(fs)
            return SEnum(v.ty, v.d, vs)
        if isinstance(v, Agg):
            return v.with_(p, self.upd(v.f[p], path[1:], new))
        raise Unsupported('store .%s into %r' % (p, v))

    def load(self, st, ptr):
        if not isinstance(ptr, Ptr):
            raise Unsupported('load through %r' % (ptr,))
        if isinstance(ptr.base, int):
            if ptr.base not in st.mem:
                raise Unsupported('load of dead cell')
            v = st.mem[ptr.base]
            for p in ptr.path:
                v = self.proj(v, p)
            return v
        return self.W.load(self, st, ptr)

    def store(self, st, ptr, val):
        if not isinstance(ptr, Ptr):
            raise Unsupported('store through %r' % (ptr,))
        if isinstance(ptr.base, int):
            st.mem[ptr.base] = self.upd(st.mem.get(ptr.base), ptr.path, val)
            return
        self.W.store(self, st, ptr, val)

    # -------------------------------------------------- places
    def place(self, st, fr, pl):
        """-> Ptr to the place"""
        cur = Ptr(fr['cells'][pl[0]])
        for p in pl[1]:
            if p[0] == 'deref':
                v = self.load(st, cur)
                if not isinstance(v, Ptr):
                    v = self.W.deref(self, st, v)
                cur = v
            elif p[0] == 'field':
                if p[2].startswith('std::boxed::BoxRaw') or p[2].startswith('std::ptr::Unique'):
                    continue
                cur = self.W.field(self, st, cur, p[1], p[2])
            elif p[0] == 'variant':
                cur = Ptr(cur.base, cur.path + (('v', p[1]),))
            elif p[0] == 'index':
                ix = self.load(st, Ptr(fr['cells'][p[1]]))
                cur = Ptr(cur.base, cur.path + (('ix', ix),))
            else:
                raise Unsupported('projection %s' % (p,))
        return cur

    def place_ty(self, fr, pl):
        for p in reversed(pl[1]):
            if p[0] == 'field':
                return p[2]
            if p[0] == 'deref':
                continue
            return None
        t = fr['fn'].locals.get(pl[0])
        n = sum(1 for p in pl[1] if p[0] == 'deref')
        ty = parse_ty(t)
        for _ in range(n):
            ty = ty.args[0]
        return ty.s

    def op_ty(self, fr, op):
        if op[0] == 'const':
            m = re.search(r'_(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)$', op[1])
            if m:
                return m.group(1)
            if op[1] in ('true', 'false'):
                return 'bool'
            return None
        return self.place_ty(fr, op[1])

    def operand(self, st, fr, op):
        if op[0] == 'const':
            return self.const(st, fr, op[1])
        return self.load(st, self.place(st, fr, op[1]))

    def const(self, st, fr, s):
        s = s.strip()
        m = re.match(r'^(-?\d+)_(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)$', s)
        if m:
            return z3.IntVal(int(m.group(1)))
        if s == 'true' or s == 'false':
            return z3.BoolVal(s == 'true')
        if s == '()':
            return UNIT
        if s.startswith('"') or s.startswith('b"'):
            return self.W.strlit(self, s)
        m = re.match(r"^'(.*)'$", s)
        if m:
            c = m.group(1)
            return z3.IntVal(ord(c.encode().decode('unicode_escape')) if c.startswith('\\') else ord(c))
        m = re.match(r'^(?:std::)?(u8|u16|u32|u64|usize|isize|i32|i64)::(MAX|MIN)$', s) or re.match(
            r'^core::num::<impl (\w+)>::(MAX|MIN)$', s)
        if m:
            b = BITS[m.group(1)]
            if m.group(1).startswith('u'):
                return z3.IntVal(2 ** b - 1 if m.group(2) == 'MAX' else 0)
            return z3.IntVal(2 ** (b - 1) - 1 if m.group(2) == 'MAX' else -2 ** (b - 1))
        m = re.match(r'^(.*)::promoted\[(\d+)\]$', s, re.S)
        if m:
            g = fr['fn'].promoted.get(int(m.group(2)))
            if g is None:
                raise Unsupported('promoted ' + s)
            out = self.run_body(st, g, [])
            if len(out) != 1:
                raise Unsupported('promoted forks')
            s2, v = out[0]
            if s2 is not st:
                st.mem, st.pc, st.H = s2.mem, s2.pc, s2.H
            return v
        if s.startswith('ZeroSized: '):
            ty = s[11:].strip()
            if ty.startswith('{closure@'):
                return Agg(ty, ())
            m = re.search(r'\{(.*)\}$', ty, re.S)
            return FnItem(m.group(1)) if m and ty.startswith(('fn(', 'for<', 'unsafe fn')) else Agg(ty, ())
        m = re.match(r'^(?:for<[^>]*> )?(?:unsafe )?fn\(.*\{(.*)\}$', s, re.S)
        if m:
            return FnItem(m.group(1))
        if s.startswith('{closure@'):
            return Agg(re.match(r'\{closure@[^}]*\}', s).group(0), ())
        # enum unit variants and constants
        if 'atomic::Ordering::' in s:
            return FnItem(s)
        if not s.startswith(('<', '&', '(')):
            c = callee(s)
            en = None
            if c.self_ty:
                en = self.enum_name(parse_ty(c.self_ty)) if re.match(r'[\w:<>, &\']+$', c.self_ty) else None
            if en and any(n == c.method for n, _ in ENUMS[en]):
                i = self.variant_index(en, c.method)
                return SEnum(en, i, {i: ()})
        if s in self.P.consts:
            return self.const(st, fr, re.sub(r'^const ', '', self.P.consts[s]))
        v = self.W.const(self, st, s)
        if v is not None:
            return v
        f = self.P.fns.get(s)
        if f is not None and f.is_const:
            out = self.run_body(st, f, [])
            if len(out) == 1 and out[0][0] is st:
                return out[0][1]
            raise Unsupported('const body ' + s)
        # function item
        return FnItem(s)

    # -------------------------------------------------- rvalues
    def discr(self, st, v):
        if isinstance(v, SEnum):
            tab = ENUMS[v.ty]
            if v.conc():
                return z3.IntVal(tab[v.d][1])
            if all(i == d for i, (_, d) in enumerate(tab)):
                return v.d
            r = z3.IntVal(tab[0][1])
            for i, (_, d) in enumerate(tab):
                r = z3.If(v.d == i, z3.IntVal(d), r)
            return r
        r = self.W.discr(self, st, v)
        if r is not None:
            return r
        raise Unsupported('discriminant of %r' % (v,))

    def binop(self, st, fr, op, a, b, ty):
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if isinstance(a, (Ptr, Opq, Agg)) or isinstance(b, (Ptr, Opq, Agg)):
                e = self.veq(a, b)
                if op == 'Eq':
                    return e
                if op == 'Ne':
                    return Not(e)
                raise Unsupported('pointer comparison')
            if z3.is_bool(a):
                if op == 'Eq':
                    return a == b
                if op == 'Ne':
                    return a != b
                raise Unsupported('bool order')
            return {'Eq': lambda: a == b, 'Ne': lambda: a != b, 'Lt': lambda: a < b, 'Le': lambda: a <= b,
                    'Gt': lambda: a > b, 'Ge': lambda: a >= b}[op]()
        if op in ('BitAnd', 'BitOr', 'BitXor') and z3.is_bool(a):
            return {'BitAnd': z3.And, 'BitOr': z3.Or, 'BitXor': z3.Xor}[op](a, b)
        if op == 'Cmp':
            d = z3.If(a < b, z3.IntVal(0), z3.If(a == b, z3.IntVal(1), z3.IntVal(2)))
            return SEnum('Ordering', d, {0: (), 1: (), 2: ()})
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base not in ('Add', 'Sub', 'Mul', 'Div', 'Rem'):
            r = self.W.bitop(self, op, a, b, ty)
            if r is not None:
                return r
            raise Unsupported('binop ' + op)
        r = {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mul': lambda: a * b, 'Div': lambda: a / b,
             'Rem': lambda: a % b}[base]()
        if op.endswith('WithOverflow'):
            if ty not in BITS:
                raise Unsupported('overflow type %s' % ty)
            lo, hi = self.range_of(ty)
            return Agg('()', [r, z3.Or(r < lo, r > hi)])
        if base in ('Add', 'Sub', 'Mul') and not op.endswith('Unchecked'):
            lo, hi = self.range_of(ty)
            m = hi - lo + 1
            return z3.If(And(r >= lo, r <= hi), r, r % m) if lo == 0 else r
        return r

    @staticmethod
    def range_of(ty):
        b = BITS[ty]
        return (0, 2 ** b - 1) if not ty.startswith('i') else (-2 ** (b - 1), 2 ** (b - 1) - 1)

    def rvalue(self, st, fr, rv, dest_ty):
        k = rv[0]
        if k == 'use':
            return self.operand(st, fr, rv[1])
        if k == 'ref':
            p = self.place(st, fr, rv[1])
            return self.W.refof(self, st, p)
        if k == 'discr':
            return self.discr(st, self.load_enum(st, self.place(st, fr, rv[1])))
        if k == 'bin':
            return self.binop(st, fr, rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]),
                              self.op_ty(fr, rv[2]) or self.op_ty(fr, rv[3]))
        if k == 'un':
            a = self.operand(st, fr, rv[2])
            if rv[1] == 'Not':
                if z3.is_bool(a):
                    return Not(a)
                t = self.op_ty(fr, rv[2])
                if t in BITS and t.startswith('u'):
                    return z3.IntVal(2 ** BITS[t] - 1) - a
                raise Unsupported('bitwise not')
            if rv[1] == 'Neg':
                return -a
            return self.W.ptr_metadata(self, st, a)
        if k == 'tuple':
            return Agg('()', [self.operand(st, fr, o) for o in rv[1]])
        if k == 'array':
            return Agg('[]', [self.operand(st, fr, o) for o in rv[1]])
        if k == 'closure':
            return Agg(rv[1], [self.operand(st, fr, o) for _, o in rv[2]], [n for n, _ in rv[2]])
        if k == 'cast':
            v = self.operand(st, fr, rv[1])
            return self.cast(st, v, rv[2], rv[3], rv[4])
        if k == 'agg':
            return self.aggregate(st, fr, rv[1], [(n, self.operand(st, fr, o)) for n, o in rv[2]], dest_ty)
        if k == 'len':
            return self.W.length(self, st, self.place(st, fr, rv[1]))
        raise Unsupported('rvalue %s' % (k,))

    def load_enum(self, st, ptr):
        return self.load(st, ptr)

    def cast(self, st, v, ty, kind, sub):
        if kind == 'IntToInt':
            if z3.is_bool(v):
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if isinstance(v, SEnum):
                return self.discr(st, v)
            if ty in BITS and z3.is_int(v):
                lo, hi = self.range_of(ty)
                if z3.is_int_value(v) and lo <= v.as_long() <= hi:
                    return v
                if lo == 0:
                    return z3.If(And(v >= 0, v <= hi), v, v % (hi + 1))
                m = hi - lo + 1
                w = v % m
                return z3.If(And(v >= lo, v <= hi), v, z3.If(w > hi, w - m, w))
        if kind in ('PtrToPtr', 'Subtype', 'PointerCoercion', 'FnPtrToPtr', 'Transmute', 'BoxDerefTransmute') or \
                (kind == 'PointerExposeProvenance' and getattr(self.W, 'addresses', False)):
            r = self.W.cast(self, st, v, ty, kind)
            return v if r is None else r
        raise Unsupported('cast %s to %s' % (kind, ty))

    def aggregate(self, st, fr, path, fields, dest_ty):
        c = callee(path)
        names = [n for n, _ in fields]
        vals = [v for _, v in fields]
        if 'atomic::Ordering::' in path:
            return FnItem(path)
        # enum variant?
        if c.self_ty:
            t = parse_ty(c.self_ty)
            en = self.enum_name(t) if t.kind == 'adt' else None
            if en and any(n == c.method for n, _ in ENUMS[en]):
                i = self.variant_index(en, c.method)
                return self.W.mkenum(self, st, SEnum(en, i, {i: tuple(vals)}))
        ty = path
        full = path
        t = parse_ty(re.sub(r'::<', '<', full))
        sn = self.struct_name(t) or last_seg(t.name)
        if sn in self.D.structs:
            order = self.D.structs[sn][1]
            if names and set(names) == set(order):
                d = dict(fields)
                vals = [d[n] for n in order]
                names = order
        if sn in ('Cell', 'ManuallyDrop', 'NonNull'):
            return vals[0]
        return self.W.mkstruct(self, st, Agg(sn, vals, names))

    # -------------------------------------------------- equality
    def veq(self, a, b):
        if isinstance(a, Agg) and isinstance(b, Agg):
            if len(a.f) != len(b.f):
                raise Unsupported('veq %r %r' % (a, b))
            return And(True, *[self.veq(x, y) for x, y in zip(a.f, b.f)])
        if isinstance(a, SEnum) and isinstance(b, SEnum):
            cs = [I(a.d) == I(b.d)]
            for i in set(a.vs) | set(b.vs):
                if i in a.vs and i in b.vs:
                    for x, y in zip(a.vs[i], b.vs[i]):
                        cs.append(Implies(a.is_(i), self.veq(x, y)))
                else:
                    cs.append(Not(And(a.is_(i), b.is_(i))))
            return And(True, *cs)
        if isinstance(a, Opq) and isinstance(b, Opq):
            return a.t == b.t
        if isinstance(a, FnItem) and isinstance(b, FnItem):
            return z3.BoolVal(a.name == b.name)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            r = self.W.ptr_eq(self, a, b)
            if r is not None:
                return r
            if isinstance(a.base, int) and isinstance(b.base, int):
                return z3.BoolVal(a.base == b.base and a.path == b.path)
            return z3.BoolVal(False)
        if z3.is_expr(a) and z3.is_expr(b):
            return a == b
        r = self.W.veq(self, a, b)
        if r is not None:
            return r
        raise Unsupported('veq %r %r' % (a, b))

    def deepeq(self, st, a, b):
        """equality following references (== on &T compares the targets)"""
        if isinstance(a, Ptr) and isinstance(b, Ptr) and isinstance(a.base, int) and isinstance(b.base, int):
            return self.deepeq(st, self.load(st, a), self.load(st, b))
        return self.veq(a, b)

    # -------------------------------------------------- solver
    def feasible(self, st, extra=None, ms=150):
        if extra is not None and z3.is_false(z3.simplify(extra)):
            return False
        s = z3.Solver()
        s.set('timeout', ms)
        t0 = time.time()
        lean = getattr(self.C.get(self.cur), 'ematch', False)
        if lean:        # quantified facts do not prune paths here; the answer does not depend on the load of the machine
            s.set('rlimit', 2000000)
            s.set('smt.mbqi', False)
            s.set('timeout', 5000)
        for c in st.pc:
            if lean:
                s.add(*ground(c))
            elif not z3.is_quantifier(c):
                s.add(c)
        if extra is not None:
            s.add(extra)
        r = s.check()
        self.solver_s += time.time() - t0
        return r != z3.unsat

    def branch(self, st, conds):
        """conds: list of Bool; yields (state, index) for each feasible one"""
        out = []
        live = [(i, c) for i, c in enumerate(conds) if not z3.is_false(z3.simplify(B(c)))]
        for i, c in live:
            c = B(c)
            if z3.is_true(z3.simplify(c)):
                out.append((st.fork(), i))
                continue
            if self.feasible(st, c):
                s = st.fork()
                s.add(c)
                out.append((s, i))
        return out

    def case(self, st, e):
        """split an enum value: [(state, variant index, fields)]"""
        if isinstance(e, SEnum):
            if e.conc():
                return [(st, e.d, e.vs[e.d])]
            idx = sorted(e.vs)
            return [(s, idx[i], e.vs[idx[i]]) for s, i in self.branch(st, [e.d == j for j in idx])]
        raise Unsupported('case of %r' % (e,))

    # -------------------------------------------------- running
    def check_time(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time limit')

    def run_body(self, st, f, args, loops=None, top=False):
        """execute a function body; -> [(state, ret)]"""
        self.P.prepare(f)
        self.check_time()
        if self.depth > 40:
            raise Unsupported('inlining too deep (recursion without a contract): ' + f.name)
        if not top:
            if sum(1 for x in self.fnstack if x is f) >= 1:
                raise Unsupported('recursive function without a contract: %s' % (f.key or f.name))
        self.depth += 1
        self.fnstack.append(f)
        try:
            cells = {}
            for l in f.locals:
                cells[l] = None
            cells.setdefault('_0', None)
            fr = {'fn': f, 'cells': cells, 'loops': loops or {}, 'args': args}
            base = st
            for l in cells:
                cells[l] = self.newcell(base, None)
            for (l, t), a in zip(f.params, args):
                base.mem[cells[l]] = a
            nat = f.loops() if not hasattr(f, '_loops') else f._loops
            f._loops = nat
            heads = sorted(nat, key=lambda b: int(b[2:]))
            fr['heads'] = {h: i for i, h in enumerate(heads)}
            fr['nat'] = nat
            results = []
            work = [(base, 'bb0', frozenset())]
            while work:
                s, bb, inl = work.pop()
                self.check_time()
                if bb in fr['heads']:
                    r = self.at_loop(s, fr, bb, inl)
                    if r is None:
                        continue
                    s, inl = r
                for nxt in self.step_block(s, fr, bb):
                    if nxt[0] == 'ret':
                        results.append((nxt[1], nxt[2]))
                    else:
                        work.append((nxt[1], nxt[2], inl))
            return results
        finally:
            self.depth -= 1
            self.fnstack.pop()

    def at_loop(self, st, fr, head, inl):
        inv = None
        key = fr['fn'].key
        idx = fr['heads'][head]
        inv = self.W.loop_inv(self, fr, key, idx)
        if inv is None:
            # constant-bound unrolling is not attempted: no invariant -> undecided
            raise Unsupported('loop without invariant in %s (loop %d)' % (key, idx))
        cx = LoopCx(self, st, fr, idx)
        if head in inl:
            # back edge: prove the invariant again, stop
            cx.entry = fr.setdefault('entry', {}).get(head)
            if hasattr(inv, 'step'):
                inv.step(cx)
            for n, g in inv.inv(cx):
                self.oblige(st, '%s: loop %d invariant preserved: %s' % (key, idx, n), g, 'inv')
            n0, carried = st.gh[('loop', key, head)]
            evs = st.bal[n0:] + [(g, k, t, -1) for l in carried for g, k, t in self.carried(st, fr, l)]
            _models().net_zero(self, st, evs, '%s: an iteration of loop %d' % (key, idx))
            return None
        fr.setdefault('entry', {})[head] = st.fork()
        cx.entry = fr['entry'][head]
        for n, g in inv.inv(cx):
            self.oblige(st, '%s: loop %d invariant on entry: %s' % (key, idx, n), g, 'inv')
        s = st.fork()
        # havoc the locals assigned in the loop
        mod = set()
        for b in fr['nat'][head]:
            ss, t = fr['fn'].blocks[b]
            for x in ss:
                if x[0] == 'assign' and not any(p[0] == 'deref' for p in x[1][1]):
                    mod.add(x[1][0])
                if x[0] == 'setdiscr':
                    mod.add(x[1][0])
            if t[0] == 'call':
                if not any(p[0] == 'deref' for p in t[1][1]):
                    mod.add(t[1][0])
        for l in sorted(mod):
            if s.mem.get(fr['cells'][l]) is not None:
                s.mem[fr['cells'][l]] = None     # only live-in values matter; the invariant re-creates them
        cx = LoopCx(self, s, fr, idx)
        cx.entry = fr['entry'][head]
        cx.mod = mod
        inv.havoc(cx)
        # the owned handles of the loop variables: those held on entry are exchanged for those of an arbitrary iteration
        carried = [l for l in sorted(mod) if s.mem.get(fr['cells'][l]) is not None]
        for l in carried:
            s.bal += [(g, k, t, -1) for g, k, t in self.carried(cx.entry, fr, l)]
        s.gh[('loop', key, head)] = (len(s.bal), carried)
        for l in carried:
            s.bal += [(g, k, t, +1) for g, k, t in self.carried(s, fr, l)]
        for n, g in inv.inv(cx):
            s.add(g)
        return s, inl | {head}

    def carried(self, st, fr, l):
        v = st.mem.get(fr['cells'][l])
        return [] if v is None else self.W.handles(v)

    def step_block(self, st, fr, bb):
        f = fr['fn']
        stmts, term = f.blocks[bb]
        for x in stmts:
            if x[0] == 'assign':
                dty = self.place_ty(fr, x[1]) if x[1][1] else f.locals.get(x[1][0], f.ret)
                v = self.rvalue(st, fr, x[2], dty)
                self.store(st, self.place(st, fr, x[1]), v)
            elif x[0] == 'setdiscr':
                raise Unsupported('set discriminant')
            else:
                raise Unsupported('intrinsic ' + x[1])
        k = term[0]
        if k == 'goto':
            return [('go', st, term[1])]
        if k == 'return':
            v = st.mem[fr['cells']['_0']]
            if v is None:
                v = UNIT
            return [('ret', st, v)]
        if k == 'unreachable':
            self.oblige(st, '%s: unreachable code' % f.key, z3.BoolVal(False), 'panic')
            return []
        if k == 'resume':
            return []
        if k == 'switch':
            v = self.operand(st, fr, term[1])
            arms = []
            if z3.is_bool(v):
                for n, b in term[2]:
                    arms.append((v if n else Not(v), b))
                if term[3]:
                    ns = {n for n, _ in term[2]}
                    if ns == {0}:
                        arms.append((v, term[3]))
                    elif ns == {1}:
                        arms.append((Not(v), term[3]))
            else:
                for n, b in term[2]:
                    if n >= 2 ** 63:
                        n -= 2 ** 64 if n >= 2 ** 64 - 300 else 0
                    if n >= 250 and self.op_ty(fr, term[1]) in ('i8',):
                        n -= 256
                    arms.append((v == n, b))
                if term[3] and not self.is_unreachable(f, term[3]):
                    arms.append((And(*[v != n for n, _ in [(self._sgn(n, fr, term[1]), b) for n, b in term[2]]]), term[3]))
            return [('go', s, arms[i][1]) for s, i in self.branch(st, [c for c, _ in arms])]
        if k == 'assert':
            c = self.operand(st, fr, term[1])
            c = c if term[2] else Not(c)
            if not z3.is_true(z3.simplify(c)):
                neg = Not(c)
                if self.feasible(st, neg):
                    s2 = st.fork()
                    s2.add(neg)
                    self.panic(s2, term[3], f)
                st.add(c)
            return [('go', st, term[4])]
        if k == 'drop':
            try:
                p = self.place(st, fr, term[1])
                v = self.load(st, p)
            except Unsupported:
                raise
            outs = self.drop_value(st, v)
            return [('go', s, term[2]) for s in outs] if term[2] else []
        if k == 'call':
            dest, fv, args, tgt = term[1], term[2], term[3], term[4]
            av = [self.operand(st, fr, a) for a in args]
            if isinstance(fv, tuple):
                outs = self.call_value(st, self.operand(st, fr, fv), av)
            else:
                outs = self.call(st, fv, av, fr)
            res = []
            for s, r in outs:
                if tgt is None:
                    self.panic(s, 'a call that does not return', f)
                    continue
                self.store(s, self.place(s, fr, dest), r)
                res.append(('go', s, tgt))
            return res
        raise Unsupported('terminator ' + k)

    def _sgn(self, n, fr, op):
        if n >= 250 and self.op_ty(fr, op) == 'i8':
            return n - 256
        return n

    def is_unreachable(self, f, bb):
        ss, t = f.blocks[bb]
        return not ss and t[0] == 'unreachable'

    def panic(self, st, msg, f=None):
        where = (f.key or f.name) if f is not None else ''
        name = 'no panic: %s %s' % (where, str(msg)[:90])
        goal = z3.BoolVal(False)
        if self.panic_ok is not None:
            g = self.panic_ok(st, str(msg))
            if g is not None:
                goal = B(g)
        self.oblige(st, name, goal, 'panic')
        self.panic_state(st, goal, where)

    def panic_state(self, st, when, where):
        """what the contract says about the state an allowed panic leaves behind"""
        ct = self.C.get(self.cur)
        if not hasattr(ct, 'on_panic') or z3.is_false(z3.simplify(B(when))):
            return
        s = st.fork()
        s.add(when)
        if self.feasible(s):
            for n, g in ct.on_panic(self, s):
                self.oblige(s, '%s: where it panics (%s): %s' % (self.cur, where, n), g, 'post')

    def oblige(self, st, name, goal, kind='post', hints=()):
        goal = B(goal)
        if z3.is_true(z3.simplify(goal)):
            self.obls.append(Obl(name, [], z3.BoolVal(True), kind))
            return
        o = Obl(name, st.pc, goal, kind, hints)
        o.ematch = getattr(self.W, 'uf', False) or getattr(self.C.get(self.cur), 'ematch', False)
        self.obls.append(o)

    # -------------------------------------------------- drops
    def drop_value(self, st, v):
        """drop glue by value; -> [states]"""
        if v is None or isinstance(v, (Opq, FnItem, Ptr)) or z3.is_expr(v):
            r = self.W.drop_leaf(self, st, v)
            return [st] if r is None else r
        r = self.W.drop(self, st, v)
        if r is not None:
            return r
        if isinstance(v, Agg):
            states = [st]
            for x in v.f:
                nx = []
                for s in states:
                    nx += self.drop_value(s, x)
                states = nx
            return states
        if isinstance(v, SEnum):
            if not any(self.W.needs_drop(x) for fs in v.vs.values() for x in fs):
                return [st]
            out = []
            for s, i, fs in self.case(st, v):
                out += self.drop_value(s, Agg('()', fs))
            return out
        return [st]

    # -------------------------------------------------- calls
    def call_value(self, st, f, args):
        """call a closure / fn item / opaque function value with positional args"""
        if isinstance(f, Ptr):
            inner = self.load(st, f)
            if isinstance(inner, Agg) and inner.ty.startswith('{closure@'):
                return self.call_closure(st, f, inner, args)
            return self.call_value(st, inner, args)
        if isinstance(f, FnItem):
            return self.call(st, f.name, args, None)
        if isinstance(f, Agg) and f.ty.startswith('{closure@'):
            return self.call_closure(st, None, f, args)
        r = self.W.call_opaque(self, st, f, args)
        if r is not None:
            return r
        raise Unsupported('call of %r' % (f,))

    def call_closure(self, st, ptr, clo, args):
        g = self.P.closures.get(clo.ty)
        if g is None:
            raise Unsupported('closure body ' + clo.ty)
        selfty = g.params[0][1]
        if selfty.startswith('&'):
            a0 = ptr if ptr is not None else self.alloc(st, clo)
        else:
            a0 = clo
        ps = g.params[1:]
        return self.run_body(st, g, [a0] + list(args))

    def find_fn(self, name, args=None, fr=None):
        """crate function for a callee string"""
        c = callee(name)
        keys = []
        if c.trait == 'PartialEq' and c.self_ty.startswith('&') and re.sub(r"^&('\w+ )?", '', c.self_ty) != 'str':
            return None     # comparison of references: std compares the targets
        if c.trait:
            sa = self.abbr(c.self_ty)
            keys.append('<%s as %s>::%s' % (sa, self.P.trait(c.trait_full), c.method))
            keys.append('<%s as %s>::%s' % (sa, c.trait, c.method))
            if sa.startswith('NodeOrToken'):
                keys.append('<NodeOrToken as %s>::%s' % (self.P.trait(c.trait_full), c.method))
        else:
            if c.self_ty:
                t = parse_ty(c.self_ty)
                if t.kind == 'adt':
                    sa = self.abbr(c.self_ty)
                    keys.append(sa + '::' + c.method)
                    if sa.startswith('NodeOrToken'):
                        keys.append('NodeOrToken::' + c.method)
                    keys.append(last_seg(t.name) + '::' + c.method)
            keys.append('::'.join(c.path))
        for k in keys:
            fs = self.P.bykey.get(k)
            if fs:
                if len(fs) == 1:
                    return fs[0]
                if args is not None:
                    for f in fs:
                        if self.W.pick(self, f, c, args):
                            return f
                return fs[0]
        return None

    def call(self, st, name, args, fr):
        self.check_time()
        c = callee(name)
        # crate function under contract?
        f = self.find_fn(name, args, fr)
        if f is None:
            g = self.W.resolve(self, st, c, args, fr)
            if g is not None:
                f = g
        if f is not None:
            r = self.W.intercept(self, st, f, args)
            if r is not None:
                return r
            ct = self.W.contract(self, f)
            if ct is not None and not (ct.inline and ct.key != self.cur):
                return self.apply_contract(st, ct, f, args)
            m = self.W.crate_model(self, st, f, c, args)
            if m is not None:
                return m
            self.inlined.add(f.key)
            return self.run_body(st, f, args)
        out = self.W.std(self, st, c, args, fr)
        if out is None:
            out = self.provided(st, name, c, args, fr)
        if out is None:
            raise Unsupported('no model for ' + re.sub(r'\s+', ' ', name)[:200])
        return out

    def provided(self, st, name, c, args, fr):
        """the provided methods of PartialEq and PartialOrd, by their definition in core"""
        if c.trait == 'PartialEq' and c.method == 'ne':
            return [(s, z3.Not(r)) for s, r in self.call(st, name[:-2] + 'eq', args, fr)]
        if c.trait == 'PartialOrd' and c.method in ('lt', 'le', 'gt', 'ge'):
            out = []
            for s, r in self.call(st, name[:-2] + 'partial_cmp', args, fr):
                o = r.f[1][0]
                d = o.d if z3.is_expr(o.d) else z3.IntVal(o.d)
                g = {'lt': d == 0, 'le': d <= 1, 'gt': d == 2, 'ge': d >= 1}[c.method]
                some = r.d if z3.is_expr(r.d) else z3.IntVal(r.d)
                out.append((s, z3.And(some == 1, g)))
            return out
        return None

    def apply_contract(self, st, ct, f, args):
        self.used.add(ct.key)
        cx = Cx(self, st, f, args)
        cx.calling = True
        if hasattr(ct, 'prepare'):
            ct.prepare(cx)
            args = cx.a
        for n, g in ct.pre(cx):
            self.oblige(st, '%s: precondition of %s: %s' % (self.cur, f.key, n), g, 'pre')
        s = st.fork()
        cx.st0 = st
        cx.st = s
        if not hasattr(ct, 'panics_state'):
            p = ct.panics(cx, 'panic in ' + f.key)
            if p is not None and not z3.is_false(z3.simplify(B(p))):
                ok = self.panic_ok(st, 'panic in ' + f.key) if self.panic_ok is not None else None
                self.oblige(st, '%s: `%s` does not panic here' % (self.cur, f.key), Or(Not(p), B(False) if ok is None else ok), 'panic')
                self.panic_state(st, p, f.key)
        for i in ct.modifies:
            p = args[i]
            ty = parse_ty(f.params[i][1]).args[0]
            self.store(s, p, self.fresh(self.W.param_ty(self, ct, f, i, ty.s), s, 'm%d' % i))
        cx.ret = ct.fresh_ret(cx) if hasattr(ct, 'fresh_ret') else self.fresh(self.W.ret_ty(self, ct, f, args), s, 'r')
        nb = len(s.bal)
        ct.effect(cx)
        self.W.contract_balance(self, ct, cx)
        self.W.rc_effect(self, ct, cx, s.bal[nb:])
        for n, g in ct.post(cx):
            s.add(g)
        if not self.feasible(s):
            return []
        return [(s, cx.ret)]


class Cx:
    """context handed to contracts"""

    def __init__(self, ex, st, f, args):
        self.ex, self.st0, self.st, self.f, self.a = ex, st, st, f, args
        self.ret = None
        self.calling = False

    def old(self, p):
        return self.ex.load(self.st0, p)

    def new(self, p):
        return self.ex.load(self.st, p)


def _models():
    import models as m
    return m


class LoopCx:
    def __init__(self, ex, st, fr, idx):
        self.ex, self.st, self.fr, self.idx = ex, st, fr, idx
        self.entry = None
        self.mod = set()

    def cell(self, name, n=-1):
        c = [p for d, p in self.fr['fn'].debug if d == name and re.match(r'_\d+$', p)]
        if not c:
            raise Unsupported('loop invariant of %s: no variable %s' % (self.fr['fn'].key, name))
        return self.fr['cells'][c[n]]

    def get(self, name, n=-1):
        v = self.st.mem.get(self.cell(name, n))
        if v is None:
            raise Unsupported('loop invariant of %s: %s not initialised' % (self.fr['fn'].key, name))
        return v

    def at_entry(self, name, n=-1):
        return self.entry.mem.get(self.cell(name, n))

    def set(self, name, v, n=-1):
        self.st.mem[self.cell(name, n)] = v

    def param(self, i):
        return self.st.mem[self.fr['cells'][self.fr['fn'].params[i][0]]]


def ground(c):
    """the conjuncts of c without quantifiers"""
    if z3.is_and(c):
        return [y for x in c.children() for y in ground(x)]
    return [] if quantified(c) else [c]


def quantified(c):
    k = c.get_id()
    if k not in _quant:
        _quant[k] = (z3.is_quantifier(c) or any(quantified(x) for x in c.children()), c)
    return _quant[k][0]


_quant = {}


class Contract:
    key = None
    props = ()
    modifies = ()
    inline = False      # verified, but executed in place at call sites

    def pre(self, cx):
        return []

    def post(self, cx):
        return []

    def effect(self, cx):
        pass

    def panics(self, cx, msg):
        return None

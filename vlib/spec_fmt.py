"""P21: printing.  A formatter is the string written so far; a string made by the code under verification is kept as
the pieces it was put together from, so that what is printed is compared with the pieces the contract lists, whatever
statements produced them.  gchr(g, i) is the character at byte i of the text of the green element g: of its string for
a token, of the child at that offset for a node."""
import ast
from core import *
from exec import *
from exec import I, B, And, Or, Implies, Not
import world as W
import models
from world import isnode, glen, gn, gtext, strlen, ch, rel, kind
from spec_nav import green_id, SN, ST
from spec_iter import reg
from spec_walk import Pre
import spec_text as T
from spec_text import schr, tchr, q1, is_str, deref, written_f, str_facts, concat, OKU, ERRF, At
from spec_api import from_raw

Int = z3.IntSort()
gchr = z3.Function('green_char', Int, Int, Int)
repeat = z3.Function('repeat', Int, Int, Int)       # literal, number of copies


# ---------------------------------------------------------------- strings as pieces
def literal(W_, t):
    """the bytes of a literal, or None"""
    if z3.is_int_value(t):
        for raw, v in W_.strs.items():
            if z3.eq(v, t):
                if raw.startswith('b"'):
                    return ast.literal_eval(raw)
                s = re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), raw)
                return ast.literal_eval(re.sub(r'\\0', r'\\x00', s)).encode()
    return None


def lit(ex, s):
    """the term of the literal s"""
    r = '"' + ''.join(c if 32 <= ord(c) < 127 and c not in '"\\' else '\\n' if c == '\n' else '\\u{%x}' % ord(c) for c in s) + '"'
    for raw, v in ex.W.strs.items():
        if raw.startswith('"') and literal(ex.W, v) == s.encode():
            return v
    return ex.W.strlit(ex, r).t


def parts(ex, x, base=None):
    """the pieces of the string x (after base)"""
    if base is not None and z3.eq(x, base):
        return []
    c = ex.W.cats.get(x.get_id())
    if c is not None:
        return parts(ex, c[1], base) + parts(ex, c[2])
    if base is not None:
        raise Unsupported('output that does not extend what was written before')
    if x.get_id() in ex.W.empties:
        return []
    b = literal(ex.W, x)
    if b is not None:
        return [('lit', b)]
    if z3.is_app(x) and z3.eq(x.decl(), repeat):
        return [('rep', literal(ex.W, x.arg(0)), z3.simplify(x.arg(1)))]
    return [('t', x)]


def norm(ps):
    out = []
    for p in ps:
        if p[0] == 'rep' and z3.is_int_value(p[2]) and p[2].as_long() == 0 or p == ('lit', b''):
            continue
        if out and p[0] == 'lit' and out[-1][0] == 'lit':
            out[-1] = ('lit', out[-1][1] + p[1])
        else:
            out.append(p)
    # repetitions absorb the copies that follow them
    res = []
    for p in out:
        if res and res[-1][0] == 'rep' and p[0] == 'lit':
            u, k, b = res[-1][1], res[-1][2], p[1]
            while b.startswith(u):
                k, b = k + 1, b[len(u):]
            res[-1] = ('rep', u, z3.simplify(k))
            if not b:
                continue
            p = ('lit', b)
        res.append(p)
    return res


def same(ex, ps, qs):
    ps, qs = norm(ps), norm(qs)
    if len(ps) != len(qs):
        return z3.BoolVal(False)
    g = []
    for p, q in zip(ps, qs):
        if p[0] != q[0] or p[0] in ('lit', 'rep') and p[1] != q[1]:
            return z3.BoolVal(False)
        if p[0] != 'lit':
            g.append(p[-1] == q[-1])
    return And(True, *g)


def terms(ex, v):
    if z3.is_expr(v):
        return [v]
    if isinstance(v, Opq):
        return [v.t]
    if isinstance(v, Agg):
        return [t for x in v.f for t in terms(ex, x)]
    raise Unsupported('debug output of %r' % (v,))


def dbg(ex, v):
    """the Debug output of a value of another crate's type (or with a derived implementation): a function of the value"""
    name = 'str' if is_str(v) else 'int' if z3.is_expr(v) else v.ty
    ts = terms(ex, v)
    return z3.Function('debug_' + name, *([Int] * (len(ts) + 1)))(*ts)


def simple(v):
    return is_str(v) or z3.is_expr(v) and z3.is_int(v) or isinstance(v, Agg) and v.ty in ('TextRange', 'SyntaxKind') or isinstance(v, Opq)


# ---------------------------------------------------------------- std::fmt
def emit(ex, st, tr, ty, val, f, fr):
    """value.fmt(f) with default options: -> [(state, ok)]"""
    v = deref(ex, st, val)
    if is_str(v) and tr == 'Display':
        return T.write(ex, st, f, v.t)
    if tr == 'Debug' and simple(v):
        return T.write(ex, st, f, dbg(ex, v))
    o = ex.load(st, f)
    f2 = ex.alloc(st, o.with_(2, z3.BoolVal(False)))
    res = []
    for s, r in ex.call(st, '<%s as std::fmt::%s>::fmt' % (ty, tr), [val, f2], fr):
        n = ex.load(s, f2)
        ex.store(s, f, n.with_(2, o.f[2]))
        for s2, i, fs in ex.case(s, r):
            res.append((s2, i == 0))
    return res


def write_all(ex, st, f, ps, fr):
    """ps: [('s', term) | (trait, type, pointer)]"""
    todo = [(st, 0)]
    res = []
    while todo:
        s, k = todo.pop(0)
        if k == len(ps):
            res.append((s, True))
            continue
        p = ps[k]
        for s2, ok in (T.write(ex, s, f, p[1]) if p[0] == 's' else emit(ex, s, p[0], p[1], p[2], f, fr)):
            if ok:
                todo.append((s2, k + 1))
            else:
                res.append((s2, False))
    return res


def template(ex, b, args):
    out, i, k = [], 0, 0
    while True:
        c = b[i]
        if c == 0:
            break
        if c < 0x80:
            out.append(('s', lit(ex, b[i + 1:i + 1 + c].decode())))
            i += 1 + c
        elif c == 0xC0:
            a = args[k]
            out.append((a.f[0], a.f[1], a.f[2]))
            i, k = i + 1, k + 1
        else:
            raise Unsupported('a format string with options')
    if k != len(args) or i != len(b) - 1:
        raise Unsupported('a format string with options')
    return out


def text_of_fmt(ex, st, run):
    """a String written by run(formatter pointer): -> [(state, String)]"""
    e = ex.sym('empty')
    ex.W.empties[e.get_id()] = e
    f = ex.alloc(st, T.formatter(ex, st, 'string', e, z3.BoolVal(False)))
    st.add(strlen(e) == 0)
    res = []
    for s, ok in run(st, f):
        if ok:
            res.append((s, Opq('String', ex.load(s, f).f[0])))
        else:
            ex.panic(s, 'a formatting implementation returned an error unexpectedly', None)
    return res


def fmt_on(ex):
    return getattr(ex.C.get(ex.cur), 'fmt', False)


def hook(Wd, ex, st, c, tn, tr0, m, full, A, fr):
    one = lambda v: [(st, v)]
    back = lambda rs: [(s, OKU() if ok else ERRF()) for s, ok in rs]
    if not fmt_on(ex):
        return None
    if c.trait in ('Debug', 'Display') and m == 'fmt' and len(A) == 2:
        v = deref(ex, st, A[0])
        if c.trait == 'Debug' and simple(v):
            return back(T.write(ex, st, A[1], dbg(ex, v)))
        return None
    if c.trait == 'ToString' and m == 'to_string':
        return text_of_fmt(ex, st, lambda s, f: emit(ex, s, 'Display', c.self_ty, A[0], f, fr))
    if c.trait:
        return None
    if c.path[-2:-1] == ['Argument'] and m in ('new_display', 'new_debug'):
        return one(Agg('FmtArg*', [m[4:].capitalize(), c.gen[0] if c.gen else None, A[0]]))
    if c.path[-2:-1] == ['Arguments'] and m in ('from_str', 'new_const', 'from_str_nonconst'):
        return one(Agg('FmtArgs*', [[('s', deref(ex, st, A[0]).t)]]))
    if c.path[-2:-1] == ['Arguments'] and m == 'new':
        b = literal(Wd, deref(ex, st, A[0]).t)
        arr = deref(ex, st, A[1])
        if b is None or not isinstance(arr, Agg):
            raise Unsupported('Arguments::new')
        return one(Agg('FmtArgs*', [template(ex, b, arr.f)]))
    fmtargs = lambda v: isinstance(v, Agg) and v.ty == 'FmtArgs*'
    if m == 'write_fmt' and len(A) == 2 and fmtargs(A[1]):
        return back(write_all(ex, st, A[0], A[1].f[0], fr))
    if m == 'format' and len(A) == 1 and fmtargs(A[0]):
        return text_of_fmt(ex, st, lambda s, f: write_all(ex, s, f, A[0].f[0], fr))
    if m == 'must_use' and len(A) == 1:
        return one(A[0])
    if tn == 'Formatter' and m == 'alternate':
        return one(deref(ex, st, A[0]).f[2])
    if tn == 'Formatter' and m in ('write_char',) and z3.is_int_value(A[1]):
        return back(T.write(ex, st, A[0], lit(ex, chr(A[1].as_long()))))
    if tn == 'Formatter' and m == 'debug_struct':
        return one(Agg('DebugStruct*', [A[0], deref(ex, st, A[1]).t, ()]))
    if tn == 'DebugStruct' and m in ('field', 'finish'):
        d = ex.load(st, A[0])
        if m == 'field':
            ex.store(st, A[0], d.with_(2, d.f[2] + ((deref(ex, st, A[1]).t, deref(ex, st, A[2])),)))
            return one(A[0])
        res = []
        for s, alt in models.truth(ex, [(st, ex.load(st, d.f[0]).f[2])]):
            ps = debug_struct(ex, d.f[1], [(n, dbg(ex, v)) for n, v in d.f[2]], alt)
            res += back(write_all(ex, s, d.f[0], [('s', p) for p in ps], fr))
        return res
    return None


def debug_struct(ex, name, fields, alt):
    """the strings debug_struct writes"""
    if alt:
        pad = z3.Function('debug_padded', Int, Int)
        return [name, lit(ex, ' {\n')] + [y for n, v in fields for y in (lit(ex, '    '), n, lit(ex, ': '), pad(v), lit(ex, ',\n'))] + [lit(ex, '}')]
    out = [name]
    for i, (n, v) in enumerate(fields):
        out += [lit(ex, ', ' if i else ' { '), n, lit(ex, ': '), v]
    return out + [lit(ex, ' }')]


# ---------------------------------------------------------------- contracts: what is printed, in pieces
class Prints(Contract):
    """want(cx, f): [(condition, strings)]: what is appended to the formatter f"""
    modifies = (1,)
    fmt = True

    def post(self, cx):
        ex = cx.ex
        o, n = cx.old(cx.a[1]), cx.new(cx.a[1])
        want = self.want(ex, cx.st0, S(cx).arg(0), o)
        ok = cx.ret.is_(0)
        if z3.is_true(z3.simplify(B(ok))):
            got = parts(ex, n.f[0], o.f[0])
            g = And(*[Implies(c, same(ex, got, [q for p in ps for q in parts(ex, p)])) for c, ps in want])
        elif z3.is_false(z3.simplify(B(ok))):
            g = z3.BoolVal(True)
        else:
            raise Unsupported('a result that depends on more than the sink')
        return [('exactly this is printed: ' + self.text, g), ('it fails only if the sink fails', Implies(cx.ret.is_(1), o.f[1])),
                ('the sink is the same', And(n.f[1] == o.f[1], n.f[2] == o.f[2]))]


def intercept(ex, st, f, args):
    """a printing function is called: its contract, with the pieces it prints"""
    ct = ex.W.contract(ex, f)
    if not isinstance(ct, Prints) or not fmt_on(ex):
        return None
    ex.used.add(ct.key)
    cx = Cx(ex, st, f, args)
    for n, g in ct.pre(cx):
        ex.oblige(st, '%s: precondition of %s: %s' % (ex.cur, f.key, n), g, 'pre')
    o = ex.load(st, args[1])
    res = []
    for c, ps in ct.want(ex, st, S(cx).arg(0), o):
        s = st.fork()
        s.add(c)
        if ex.feasible(s):
            res += [(s2, OKU() if ok else ERRF()) for s2, ok in write_all(ex, s, args[1], [('s', p) for p in ps], None)]
    return res


def struct_want(name, fields):
    def want(self, ex, st, v, o):
        fs = [(lit(ex, n), dbg(ex, g(ex, st, v))) for n, g in fields]
        return [(Not(o.f[2]), debug_struct(ex, lit(ex, name), fs, False)), (o.f[2], debug_struct(ex, lit(ex, name), fs, True))]
    return want


def gid(v):
    return v.f[0].base[1] if isinstance(v, Agg) else v.base[1]


KINDG = ('kind', lambda ex, st, v: Agg('SyntaxKind', [kind(gid(v))], ['0']))


def prints(key, text, want, **kw):
    cls = type('Prints_', (Prints,), {'text': text, 'want': want})
    reg(key, cls(), 'P21', **kw)


_gt = struct_want('GreenToken', [KINDG, ('text', lambda ex, st, v: Opq('&str', gtext(gid(v))))])
_gn = struct_want('GreenNode', [KINDG, ('text_len', lambda ex, st, v: glen(gid(v))), ('n_children', lambda ex, st, v: gn(gid(v)))])
for _k in ('GreenTokenData', 'GreenToken'):
    prints('<%s as Debug>::fmt' % _k, 'kind and text', _gt)
for _k in ('GreenNodeData', 'GreenNode'):
    prints('<%s as Debug>::fmt' % _k, 'kind, text length and number of children', _gn)


def red_range(st, r):
    return models.TR(r.A, r.A + glen(r.G))


prints('<%s as Debug>::fmt' % SN, 'kind and range', struct_want('SyntaxNode', [
    ('kind', lambda ex, st, v: Agg('SyntaxKind', [kind(W.Rec(st, rec(v)).G)], ['0'])),
    ('text_range', lambda ex, st, v: red_range(st, W.Rec(st, rec(v))))]))


def head(ex, st, r):
    """KIND@RANGE"""
    return [dbg(ex, Opq('L::Kind', from_raw(kind(r.G)))), lit(ex, '@'), dbg(ex, red_range(st, r))]


def raw(v):
    return v.f[v.names.index('raw')] if isinstance(v, Agg) and v.names and 'raw' in v.names else v


short = z3.Function('shortened', Int, Int)


def token_want(self, ex, st, v, o):
    r = W.Rec(st, rec(raw(v)))
    return [(z3.BoolVal(True), head(ex, st, r) + [lit(ex, ' '), dbg(ex, Opq('&str', short(gtext(r.G))))])]


class TokenDebug(Prints):
    text = 'kind, range, and the text, from 25 bytes on the part before the first character boundary from byte 21 on and " ..."'
    want = token_want
    ematch = True

    def post(self, cx):
        """short(t) is replaced by its definition"""
        ex = cx.ex
        o, n = cx.old(cx.a[1]), cx.new(cx.a[1])
        r = W.Rec(cx.st0, rec(raw(S(cx).arg(0))))
        t = gtext(r.G)
        out = [('it fails only if the sink fails', Implies(cx.ret.is_(1), o.f[1])), ('the sink is the same', And(n.f[1] == o.f[1], n.f[2] == o.f[2]))]
        if cx.ret.conc() and cx.ret.d == 1:
            return out
        got = norm(parts(ex, n.f[0], o.f[0]))
        last = got[-1][1] if got and got[-1][0] == 't' else None
        if last is None or last.decl().name() != 'debug_str':
            return out + [('the text is printed last, quoted', z3.BoolVal(False))]
        x = last.arg(0)
        hd = same(ex, got[:-1], [q for p in head(ex, cx.st0, r) + [lit(ex, ' ')] for q in parts(ex, p)])
        ps = norm(parts(ex, x))
        if ps == [('t', x)] or len(ps) == 1 and ps[0][0] == 't' and ps[0][1].get_id() not in ex.W.subs:
            g = And(strlen(t) < 25, ps[0][1] == t)
        elif len(ps) == 2 and ps[1] == ('lit', b' ...') and ps[0][0] == 't' and ps[0][1].get_id() in ex.W.subs:
            _, u, lo, hi = ex.W.subs[ps[0][1].get_id()]
            i = q1()
            g = And(u == t, lo == 0, strlen(t) >= 25, 21 <= hi, hi < 25, T.bnd(t, hi),
                    z3.ForAll([i], Implies(And(21 <= i, i < hi), Not(T.bnd(t, i))), patterns=[schr(t, i)]))
        else:
            g = z3.BoolVal(False)
        return out + [('kind@range and a space first', hd), ('then ' + self.text.split(', and ')[1], g)]


reg('<api::SyntaxToken as Debug>::fmt', TokenDebug(), 'P21')


def utf8(t, i):
    """a str is UTF-8: of four consecutive positions inside it one is a character boundary"""
    return Implies(And(0 <= i, i + 4 <= strlen(t)), Or(*[T.bnd(t, i + k) for k in range(4)]))


class TokenDebugInv:
    """no boundary among the positions passed"""

    def inv(self, c):
        it = c.get('iter')
        lo, hi = it.lo, it.hi
        t = gtext(W.h(c.st, 'G', rec(raw(deref(c.ex, c.st, c.ex.top_args[0])))))
        i = q1()
        c.st.add(utf8(t, lo - 4))
        return [('no character boundary has been passed', And(21 <= lo, lo <= 25, hi == 25,
                                                              z3.ForAll([i], Implies(And(21 <= i, i < lo), Not(T.bnd(t, i))), patterns=[schr(t, i)])))]

    def havoc(self, c):
        c.set('iter', c.at_entry('iter').with_(lo=c.ex.sym('idx')))


# the alternate form: upto(s, k) is what is printed before the event number k of the walk from s
upto = z3.Function('tree_lines', Int, Int, Int)


def line(ex, st, s, t):
    """the line of the element t, indented by its depth below s: [(condition, strings)]"""
    r = W.Rec(st, t)
    ind = repeat(lit(ex, '  '), z3.simplify(r.D - W.h(st, 'D', s)))
    return [(isnode(r.G), [ind] + head(ex, st, r) + [lit(ex, '\n')]),
            (Not(isnode(r.G)), [ind] + token_want(None, ex, st, Agg('cursor::SyntaxToken', [Ptr(('rec', t))], ['ptr']), None)[0][1] + [lit(ex, '\n')])]


def last_event(st, s):
    r = W.Rec(st, s)
    return r.E + 2 * W.esz(r.G)


class NodeDebug(Prints):
    text = 'kind and range; the alternate form: the lines of all elements in the order of the walk, indented by depth'

    def want(self, ex, st, v, o):
        n = rec(raw(v))
        return [(Not(o.f[2]), head(ex, st, W.Rec(st, n))), (o.f[2], [upto(n, last_event(st, n))])]


reg('<api::SyntaxNode as Debug>::fmt', NodeDebug(), 'P21')


class Lines:
    """the lines of the events passed were printed; level is the depth of the next event"""

    def at(self, c, st=None):
        st = st or c.st
        w = Pre(st, raw(c.get('iter', 0)), True)
        s = rec(raw(deref(c.ex, c.ex.entry_state, c.ex.top_args[0])))
        ev = w.ev
        some = ev.some if ev.v is not None else z3.BoolVal(False)
        k = z3.If(some, ev.rank(), last_event(st, s)) if ev.v is not None else last_event(st, s)
        depth = z3.If(some, ev.depth(), W.h(st, 'D', s)) if ev.v is not None else W.h(st, 'D', s)
        return w, s, some, k, depth

    def inv(self, c):
        ex, st = c.ex, c.st
        w, s, some, k, depth = self.at(c)
        f = ex.top_args[1]
        o, n = ex.load(c.entry, f), ex.load(st, f)
        out = [('the walk from the node', And(w.start == s, Not(w.skip), w.inv)),
               ('the level is the depth of the next event', c.get('level') == depth - W.h(st, 'D', s)),
               ('the sink is the same', And(n.f[1] == o.f[1], n.f[2] == o.f[2]))]
        st.add(0 <= depth - W.h(st, 'D', s), depth - W.h(st, 'D', s) < 2 ** 31 - 1)     # assumed: trees are less than 2^31 deep
        old = st.gh.get(('lines', c.idx))
        if old is None:
            return out + [('nothing was printed yet', And(same(ex, parts(ex, n.f[0], o.f[0]), []), k == W.h(st, 'E', s)))]
        return out      # what an iteration prints: step

    def havoc(self, c):
        ex, st = c.ex, c.st
        old = c.at_entry('iter', 0)
        walk = ex.fresh(T.WALK, st, 'walk')
        c.set('iter', walk if old.ty == T.WALK else old.with_(old.names.index('raw'), walk), 0)
        c.set('level', ex.sym('level'))
        w, s, some, k, depth = self.at(c)
        f = ex.top_args[1]
        o = ex.load(c.entry, f)
        x = concat(ex, st, o.f[0], upto(s, k))
        ex.store(st, f, o.with_(0, x))
        st.gh[('lines', c.idx)] = (x, k, w.ev, c.get('iter', 0))
        st.bal += [(g, k, t, -1) for g, k, t in ex.W.handles(old)] + [(g, k, t, +1) for g, k, t in ex.W.handles(c.get('iter', 0))]

    def step(self, c):
        ex, st = c.ex, c.st
        x, k0, ev0, it0 = st.gh[('lines', c.idx)]
        st.bal += [(g, k, t, +1) for g, k, t in ex.W.handles(it0)] + [(g, k, t, -1) for g, k, t in ex.W.handles(c.get('iter', 0))]
        w, s, some, k, depth = self.at(c)
        got = parts(ex, ex.load(st, ex.top_args[1]).f[0], x)
        g = [Implies(And(ev0.enter, cond), same(ex, got, [q for p in ps for q in parts(ex, p)])) for cond, ps in line(ex, st, s, ev0.t)]
        ex.oblige(st, '%s: the event passed is the next one, and its line is printed iff it enters an element' % ex.cur,
                  And(ev0.some, k == k0 + 1, Implies(Not(ev0.enter), same(ex, got, [])), *g), 'inv')


class Indent:
    def inv(self, c):
        ex, st = c.ex, c.st
        it = c.get('iter', -1)
        f = ex.top_args[1]
        o, n = ex.load(c.entry, f), ex.load(st, f)
        lo0 = c.at_entry('iter', -1)
        got = parts(ex, n.f[0], o.f[0])
        return [('one indentation for each level passed', And(it.hi == lo0.hi, lo0.lo <= it.lo, it.lo <= it.hi, same(ex, got, [('rep', b'  ', z3.simplify(it.lo - lo0.lo))]))),
                ('the sink is the same', And(n.f[1] == o.f[1], n.f[2] == o.f[2]))]

    def havoc(self, c):
        ex, st = c.ex, c.st
        it = c.at_entry('iter', -1).with_(lo=ex.sym('i'))
        c.set('iter', it, -1)
        f = ex.top_args[1]
        o = ex.load(c.entry, f)
        ex.store(st, f, o.with_(0, concat(ex, st, o.f[0], repeat(lit(ex, '  '), z3.simplify(it.lo - c.at_entry('iter', -1).lo)))))


# ---------------------------------------------------------------- Display: exactly the text
def child_text(g, k):
    """definition of the text of a node at its child k"""
    c = ch(g, k)
    i, o = q1(), q1()
    return And(z3.ForAll([i], Implies(And(0 <= i, i < glen(c)), gchr(g, rel(g, k) + i) == gchr(c, i)), patterns=[gchr(c, i)]),
               z3.ForAll([o], Implies(And(rel(g, k) <= o, o < rel(g, k) + glen(c)), gchr(g, o) == gchr(c, o - rel(g, k))), patterns=[gchr(g, o)]))


def token_text(g):
    """definition of the text of a token; its length is that of its string (GreenToken::new)"""
    i = q1()
    t = gtext(g)
    return Implies(Not(isnode(g)), And(strlen(t) == glen(g), *str_facts(t), z3.ForAll([i], gchr(g, i) == schr(t, i), patterns=[gchr(g, i)]),
                                       z3.ForAll([i], gchr(g, i) == schr(t, i), patterns=[schr(t, i)])))


class Shows(Contract):
    """writes exactly the text"""
    modifies = (1,)
    fmt = True
    ematch = True

    def chars(self, cx):
        """(character function, start, end)"""
        g = gid(S(cx).arg(0))
        cx.st0.add(token_text(g))
        cx.st.add(token_text(g))
        return (lambda x: gchr(g, x)), I(0), glen(g)

    def post(self, cx):
        f, a, b = self.chars(cx)
        o, n = cx.old(cx.a[1]), cx.new(cx.a[1])
        return [('what is written is exactly the text', Implies(cx.ret.is_(0), written_f(o.f[0], n.f[0], f, a, b))),
                ('it fails only if the sink fails', Implies(cx.ret.is_(1), o.f[1])),
                ('the sink is the same', And(n.f[1] == o.f[1], n.f[2] == o.f[2]))]


for _k in ('GreenTokenData', 'GreenToken', 'GreenNodeData', 'GreenNode'):
    reg('<%s as Display>::fmt' % _k, Shows(), 'P21 P01')


class GreenShowInv:
    """the text of the children passed has been written"""

    def parts(self, c):
        g = gid(c.ex.top_args[0])
        it = c.get('iter').f[0]
        return g, it

    def inv(self, c):
        g, it = self.parts(c)
        o, n = c.ex.load(c.ex.entry_state, c.ex.top_args[1]), c.ex.load(c.st, c.ex.top_args[1])
        c.st.add(child_text(g, it.lo), W.cfacts(g, it.lo), token_text(ch(g, it.lo)))
        return [('the iterator is over the children of the node', And(it.src[1] == g, 0 <= it.lo, it.lo <= it.hi, it.hi == gn(g))),
                ('the text of the children passed was written', written_f(o.f[0], n.f[0], lambda x: gchr(g, x), I(0), rel(g, it.lo))),
                ('the sink is the same', And(n.f[1] == o.f[1], n.f[2] == o.f[2]))]

    def havoc(self, c):
        old = c.at_entry('iter')
        c.set('iter', Agg(old.ty, [models.It('slice', src=old.f[0].src, lo=c.ex.sym('lo'), hi=old.f[0].hi)], old.names))
        f = c.ex.top_args[1]
        c.ex.store(c.st, f, c.ex.load(c.st, f).with_(0, c.ex.sym('out')))


class RedShows(Shows):
    def chars(self, cx):
        r = W.Rec(cx.st0, rec(raw(S(cx).arg(0))))
        return (lambda x: tchr(r.root, x)), r.A, r.A + glen(r.G)


for _k in (ST, SN, 'api::SyntaxToken', 'api::SyntaxNode'):
    reg('<%s as Display>::fmt' % _k, RedShows(), 'P21 P10')


def node_fold(F, st, walk, acc):
    v = raw(deref(F.ex, F.ex.entry_state, F.ex.top_args[0]))
    n = rec(v)
    r = W.Rec(st, n)
    w = At(st, n, r.A, r.A + glen(r.G), walk)
    o, x = T.fmt_vals(F, st)
    if not F.cells:
        return w.inv()
    return w.inv() + [('what is written is the text passed', written_f(o.f[0], x.f[0], lambda y: tchr(w.root, y), w.a, w.p)),
                      ('the sink is the same', And(x.f[1] == o.f[1], x.f[2] == o.f[2]))]


class TextDebug(Prints, T.Text):
    """the text of the node as a quoted string"""

    def post(self, cx):
        ex = cx.ex
        root, a, b = self.parts(cx)
        o, n = cx.old(cx.a[1]), cx.new(cx.a[1])
        g = z3.BoolVal(True)
        if cx.ret.conc() and cx.ret.d == 0:
            got = parts(ex, n.f[0], o.f[0])
            ok = len(got) == 1 and got[0][0] == 't' and got[0][1].decl().name() == 'debug_str'
            x = got[0][1].arg(0) if ok else None
            g = And(strlen(x) == b - a, T.same_text(x, root, a, b - a)) if ok else z3.BoolVal(False)
        return [('the text is printed, quoted', g), ('it fails only if the sink fails', Implies(cx.ret.is_(1), o.f[1])),
                ('the sink is the same', And(n.f[1] == o.f[1], n.f[2] == o.f[2]))]


reg('<SyntaxText as Debug>::fmt', TextDebug(), 'P21 P10')


# ---------------------------------------------------------------- serde
# A serializer is a caller-supplied object: the calls it gets are recorded, each may fail.
def ser_value(ex, st, v):
    """what serialising the value gives the serializer: -> [(state, description)]"""
    v = deref(ex, st, v)
    if isinstance(v, Agg) and v.ty in ('SerDisplay', 'serde_impls::SerDisplay'):
        ex.used.add('<SerDisplay as Serialize>::serialize')
        return [(s, ('str', [('t', x.t)] if x.t.get_id() not in ex.W.cats else parts(ex, x.t)))
                for s, x in text_of_fmt(ex, st, lambda s, f: emit(ex, s, 'Display', 'T', ex.alloc(s, v.f[0]), f, None))]
    if is_str(v):
        return [(st, ('str', parts(ex, v.t)))]
    if isinstance(v, Agg) and v.ty == 'TextRange':
        return [(st, ('range', list(v.f)))]
    if isinstance(v, Agg) and v.ty in ('Children', 'serde_impls::Children'):
        ex.used.add('<Children as Serialize>::serialize')
        return [(st, ('children', [rec(raw(deref(ex, st, v.f[0])))]))]
    if isinstance(v, Agg) and v.ty in ('api::SyntaxNode', 'api::SyntaxToken'):
        ex.used.add('<%s as Serialize>::serialize' % v.ty)
        return [(st, (v.ty, [rec(raw(v))]))]
    raise Unsupported('serialising %r' % (v,))


def ser_hook(Wd, ex, st, c, tn, tr0, m, full, A, fr):
    if c.trait not in ('Serializer', 'SerializeMap', 'SerializeSeq') or not fmt_on(ex):
        return None
    ct = ex.C[ex.cur]

    def outcome(s, ok):
        """Ok(ok) or an error of the serializer, which is remembered"""
        err, d = Opq('S::Error', ex.sym('err')), ex.sym('fails')
        s.add(d >= 0, d <= 1)
        ex.store(s, s.gh['failed'], d == 1)
        ex.store(s, s.gh['err'], err)
        return [(s, SEnum('Result', d, {0: (ok,), 1: (err,)}))]
    ex.oblige(st, '%s: no call after a failure' % ex.cur, Not(ex.load(st, st.gh['failed'])), 'post')
    log = lambda s, e: s.gh.__setitem__('calls', s.gh['calls'] + (e,))
    if m == 'collect_str':
        res = []
        for s, x in text_of_fmt(ex, st, lambda s, f: emit(ex, s, 'Display', c.gen[0], A[1], f, fr)):
            log(s, ('str', parts(ex, x.t)))
            res += outcome(s, Opq('S::Ok', ex.sym('ok')))
        return res
    if m in ('serialize_map', 'serialize_seq'):
        log(st, (m[10:], A[1]))
        return outcome(st, Agg('Compound*', [m[10:]]))
    if m == 'serialize_entry':
        k = literal(Wd, deref(ex, st, A[1]).t)
        res = []
        for s, v in ser_value(ex, st, A[2]):
            log(s, ('entry', k, v))
            res += outcome(s, UNIT)
        return res
    if m == 'serialize_element' and hasattr(ct, 'element'):
        res = []
        for s, v in ser_value(ex, st, A[1]):
            ct.element(ex, s, v)
            res += outcome(s, UNIT)
        return res
    if m == 'end':
        log(st, ('end',))
        ok = Opq('S::Ok', ex.sym('ok'))
        ex.store(st, st.gh['ok'], ok)
        return outcome(st, ok)
    return None


class Serial(Contract):
    """the calls the serializer gets, in order"""
    fmt = True
    balance = True

    def args(self, ex, st, f):
        a = [ex.fresh(f.params[0][1], st, 'a0'), Opq('S', ex.sym('ser'))]
        st.gh['calls'] = ()
        st.gh['failed'] = ex.alloc(st, z3.BoolVal(False))
        st.gh['err'] = ex.alloc(st, Opq('S::Error', ex.sym('noerr')))
        st.gh['ok'] = ex.alloc(st, Opq('S::Ok', ex.sym('nook')))
        st.gh['cnt'] = ex.alloc(st, I(0))
        return a

    def post(self, cx):
        ex, st = cx.ex, cx.st
        ld = lambda k: ex.load(st, st.gh[k])
        r = cx.ret
        ok = r.is_(0)
        want = self.want(cx)
        calls = st.gh['calls']
        g = z3.BoolVal(len(calls) == len(want))
        for a, b in zip(calls, want):
            g = And(g, self.call_eq(ex, a, b))
        # on a failure the calls made are a prefix
        gf = z3.BoolVal(len(calls) <= len(want))
        for a, b in zip(calls, want):
            gf = And(gf, self.call_eq(ex, a, b))
        out = [('exactly the listed calls, in order', Implies(ok, g)), ('no other call before a failure', Implies(Not(ok), gf)),
               ('Ok iff no call failed', And(Implies(ok, Not(ld('failed'))), Implies(Not(ok), ld('failed'))))]
        if 1 in r.vs:
            out.append(("the serializer's error is handed on", Implies(Not(ok), ex.veq(r.vs[1][0], ld('err')))))
        return out

    @staticmethod
    def call_eq(ex, a, b):
        if a[0] != b[0] or len(a) != len(b):
            return z3.BoolVal(False)
        if a[0] == 'map':
            return opt_post(a[1], b[1] is None, lambda n: n == b[1]) if b[1] is not None else Not(opt(a[1])[0])
        if a[0] == 'seq':
            some, n = opt(a[1])
            return Implies(some, n == b[1]) if n is not None else z3.BoolVal(True)     # a length that is announced is the real one
        if a[0] == 'entry':
            return And(z3.BoolVal(a[1] == b[1]), Serial.val_eq(ex, a[2], b[2]))
        if a[0] == 'str':
            return same(ex, a[1], b[1])
        return z3.BoolVal(True)

    @staticmethod
    def val_eq(ex, a, b):
        if a[0] != b[0]:
            return z3.BoolVal(False)
        if a[0] == 'str':
            return same(ex, a[1], b[1])
        return And(True, *[x == y for x, y in zip(a[1], b[1])])


class SerElement(Serial):
    """kind, range and the third entry"""

    def __init__(self, third):
        self.third = third

    def want(self, cx):
        ex, st = cx.ex, cx.st0
        n = rec(raw(S(cx).arg(0)))
        r = W.Rec(st, n)
        k = dbg(ex, Opq('L::Kind', from_raw(kind(r.G))))
        return [('map', 3), ('entry', b'kind', ('str', [('t', k)])), ('entry', b'text_range', ('range', [r.A, r.A + glen(r.G)])),
                ('entry',) + self.third(n, r), ('end',)]


reg('<api::SyntaxNode as Serialize>::serialize', SerElement(lambda n, r: (b'children', ('children', [n]))), 'P21')
reg('<api::SyntaxToken as Serialize>::serialize', SerElement(lambda n, r: (b'text', ('str', [('t', gtext(r.G))]))), 'P21')


class SerChildren(Serial):
    """every child once, in order"""

    def element(self, ex, st, v):
        n = rec(raw(deref(ex, ex.entry_state, deref(ex, ex.entry_state, ex.top_args[0]).f[0])))
        cnt = ex.load(st, st.gh['cnt'])
        e = W.Rec(st, v[1][0])
        ex.oblige(st, '%s: elements between the start and the end of the sequence' % ex.cur,
                  z3.BoolVal([c[0] for c in st.gh['calls']] == ['seq']), 'post')
        ex.oblige(st, '%s: the next child is serialised, as what it is' % ex.cur,
                  And(e.P == n, e.I == cnt, isnode(e.G) == z3.BoolVal(v[0] == 'api::SyntaxNode')), 'post')
        ex.store(st, st.gh['cnt'], cnt + 1)

    def want(self, cx):
        n = rec(raw(deref(cx.ex, cx.st0, S(cx).arg(0).f[0])))
        return [('seq', gn(W.h(cx.st0, 'G', n))), ('end',)]

    def post(self, cx):
        n = rec(raw(deref(cx.ex, cx.st0, S(cx).arg(0).f[0])))
        return super().post(cx) + [('every child was serialised', Implies(cx.ret.is_(0), cx.ex.load(cx.st, cx.st.gh['cnt']) == gn(W.h(cx.st0, 'G', n))))]


reg('<Children as Serialize>::serialize', SerChildren(), 'P21')


def ser_fold(F, st, it, acc):
    ex = F.ex
    n = rec(raw(deref(ex, ex.entry_state, deref(ex, ex.entry_state, ex.top_args[0]).f[0])))
    p = models.CHILD_ITERS[it.ty](st, it)
    return [('the iterator is over the children of the node', And(p.inv, p.parent == n, 0 <= p.lo, p.lo <= gn(p.g))),
            ('the children passed were serialised', And(ex.load(st, st.gh['cnt']) == p.lo, Not(ex.load(st, st.gh['failed']))))]


class SerStr(Serial):
    """a string: the Display output of the value inside"""

    def args(self, ex, st, f):
        a = super().args(ex, st, f)
        x = Opq('&str', ex.sym('shown'))
        a[0] = ex.alloc(st, Agg('SerDisplay', [x], ['0']))
        st.gh['shown'] = x.t
        return a

    def want(self, cx):
        return [('str', [('t', cx.st.gh['shown'])])]


reg('<SerDisplay as Serialize>::serialize', SerStr(), 'P21')


class DebugShown(Prints):
    text = 'the Debug output of the value inside'

    def args(self, ex, st, f):
        v = Opq('T', ex.sym('value'))
        return [ex.alloc(st, Agg('DisplayDebug', [v], ['0'])), ex.fresh(f.params[1][1], st, 'a1')]

    def want(self, ex, st, v, o):
        return [(z3.BoolVal(True), [dbg(ex, deref(ex, st, v.f[0]))])]


reg('<DisplayDebug as Display>::fmt', DebugShown(), 'P21')


# the text of a tree at an element is the element's own text
@lemma('the text of a tree at an element is the text of that element', 'P10 P21')
def own_text():
    st = State()
    W.init_heap(st)
    t = z3.Int('t')
    r = W.Rec(st, t)
    p = W.Rec(st, r.P)
    o = q1()
    root_def = z3.ForAll([o], tchr(r.root, o) == gchr(W.h(st, 'G', r.root), o), patterns=[tchr(r.root, o)])
    at = lambda q: z3.ForAll([o], Implies(And(q.A <= o, o < q.A + glen(q.G)), tchr(q.root, o) == gchr(q.G, o - q.A)), patterns=[tchr(q.root, o)])
    hyp = [W.valid(st, t), root_def, Implies(r.P != 0, And(at(p), child_text(p.G, r.I), p.D < r.D))]
    x = z3.Int('x')
    goal = Implies(And(r.A <= x, x < r.A + glen(r.G)), tchr(r.root, x) == gchr(r.G, x - r.A))
    return [('from the parent down', hyp, goal)]


def install(world):
    world.early_hooks.insert(0, hook)
    world.empties = {}
    world.intercepts.append(intercept)
    world.invs[('<api::SyntaxToken as Debug>::fmt', 0)] = TokenDebugInv()
    world.invs[('<api::SyntaxNode as Debug>::fmt', 0)] = Lines()
    world.invs[('<api::SyntaxNode as Debug>::fmt', 1)] = Indent()
    world.invs[('<GreenNodeData as Display>::fmt', 0)] = GreenShowInv()
    T.FOLDS['<%s as Display>::fmt' % SN] = node_fold
    T.FOLDS['<Children as Serialize>::serialize'] = ser_fold
    world.early_hooks.insert(0, ser_hook)

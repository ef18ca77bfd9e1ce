"""Registry of contracts, the per-function verification driver and the
obligation discharge."""
import time
import z3
from exec import *
from exec import I, B, And, Or, Implies, Not
import world as W
import models

CONTRACTS = {}
LEMMAS = {}


def contract(key, props, **kw):
    def deco(cls):
        o = cls()
        o.key = key
        o.props = tuple(props.split())
        for k, v in kw.items():
            setattr(o, k, v)
        CONTRACTS[key] = o
        return cls
    return deco


def lemma(name, props):
    """a lemma: function returning [(name, hypotheses, goal)]"""
    def deco(fn):
        fn.props = tuple(props.split())
        LEMMAS[name] = fn
        return fn
    return deco


# ------------------------------------------------------------------ spec vocabulary
def rec(v):
    """record id of a handle / record pointer / pointer to a handle"""
    if isinstance(v, Agg) and v.ty in W.World.HANDLES:
        v = v.f[0]
    if isinstance(v, Ptr) and isinstance(v.base, tuple) and v.base[0] == 'rec' and not v.path:
        return v.base[1]
    if isinstance(v, SEnum) and v.ty == 'NodeOrToken':
        ts = [(i, rec(v.vs[i][0])) for i in sorted(v.vs)]
        if len(ts) == 1:
            return ts[0][1]
        return z3.If(v.is_(0), ts[0][1], ts[1][1])
    raise Unsupported('rec of %r' % (v,))


class S:
    """spec view of a call: cx.a are argument values; h fields in old/new state"""

    def __init__(self, cx):
        self.cx = cx
        self.ex = cx.ex

    def arg(self, i):
        v = self.cx.a[i]
        while isinstance(v, Ptr) and isinstance(v.base, int):
            v = self.ex.load(self.cx.st0, v)
        return v

    def argnew(self, i):
        v = self.cx.a[i]
        while isinstance(v, Ptr) and isinstance(v.base, int):
            v = self.ex.load(self.cx.st, v)
        return v

    def r(self, t):
        return W.Rec(self.cx.st0, t)

    def rn(self, t):
        return W.Rec(self.cx.st, t)

    @property
    def ret(self):
        return self.cx.ret


def opt(v):
    """(is_some, payload or None) of an Option value"""
    if 1 in v.vs:
        return v.is_(1), v.vs[1][0]
    return z3.BoolVal(False), None


def opt_post(v, none, some):
    """post for an Option: none: Bool, some: fn(payload) -> Bool"""
    is_some, p = opt(v)
    c = [Implies(Not(is_some), none)]
    if p is not None:
        c.append(Implies(is_some, some(p)))
    return And(*c)


_q = [0]


def forall(f, lo, hi, pats=None):
    _q[0] += 1
    k = z3.Int('q!%d' % _q[0])
    body = z3.Implies(z3.And(lo <= k, k < hi), f(k))
    return z3.ForAll([k], body, patterns=[p(k) for p in pats]) if pats else z3.ForAll([k], body)


def forall_child(g, f, lo, hi):
    if has_ite(g):
        return forall(f, lo, hi)
    return forall(f, lo, hi, [lambda k: W.ch(g, k)])


def pred(cx, f, k):
    """truth of a kind predicate (caller-supplied closure) on kind k"""
    ex = cx.ex
    st = cx.st
    outs = ex.call_value(st.fork(), f, [Agg('SyntaxKind', [k], ['0'])])
    if len(outs) == 1:
        extra = outs[0][0].pc[len(st.pc):]
        return B(outs[0][1])
    base = len(st.pc)
    r = z3.BoolVal(False)
    for s, b in outs:
        r = Or(r, And(And(True, *s.pc[base:]), b))
    return r


# ------------------------------------------------------------------ verification
class Result:
    def __init__(self, key):
        self.key = key
        self.obls = []
        self.error = None
        self.paths = 0
        self.secs = 0.0


def make_exec(prog, defs, repo, world=None):
    w = world or W.World(prog, defs, repo)
    return Exec(prog, defs, CONTRACTS, w)


def verify(ex, key):
    """generate all obligations of one function; -> Result"""
    ct = CONTRACTS[key]
    res = Result(key)
    t0 = time.time()
    fs = ex.P.bykey.get(getattr(ct, 'fkey', key))
    if not fs:
        res.error = 'function not found in the current source'
        return res
    f = fs[0]
    if len(fs) > 1:
        f = ct.select(ex, fs) if hasattr(ct, 'select') else fs[0]
    ex.P.prepare(f)
    ex.cur = key
    ex.obls = []
    st = State()
    W.UF = getattr(ex.W, 'uf', False)
    W.init_heap(st)
    for k, so in getattr(ex.W, 'ARRX', {}).items():
        st.H[k] = z3.Array('H_' + k, z3.IntSort(), so)
    try:
        ex.W.heapmode = getattr(ct, 'heapmode', False)
        ex.W.scenario = getattr(ct, 'scenario', None)
        ex.W.delegate = getattr(ct, 'delegate', False)
        ex.W.opqk = getattr(ct, 'opaque', 'bool')
        args = ct.args(ex, st, f) if hasattr(ct, 'args') else [ex.fresh(t, st, 'a%d' % i) for i, (l, t) in enumerate(f.params)]
        cx = Cx(ex, st, f, args)
        cx.S = None
        for n, g in ct.pre(cx):
            st.add(g)
        # vacuity: the precondition is satisfiable
        s = z3.Solver()
        s.set('timeout', 5000)
        for c in st.pc:
            if not has_quant(c):
                s.add(c)
        if s.check() == z3.unsat:
            res.error = 'VACUOUS precondition'
            return res
        st0 = st.fork()
        cx.st0 = st0
        ex.panic_ok = lambda s, msg: ct.panics(cx, msg, s) if hasattr(ct, 'panics_state') else ct.panics(cx, msg)
        ex.top_args = args
        ex.entry_state = st0
        outs = ex.run_body(st.fork(), f, args, top=True)
        res.paths = len(outs)
        for s, r in outs:
            c2 = Cx(ex, st0, f, args)
            c2.st = s
            c2.ret = r
            if hasattr(ct, 'exit'):
                ct.exit(c2)
            for n, g in type_inv(ex, s, r):
                ex.oblige(s, '%s: %s' % (key, n), g, 'type')
            for i in ct.modifies:
                for n, g in type_inv(ex, s, ex.load(s, args[i])):
                    ex.oblige(s, '%s: %s' % (key, n), g, 'type')
            for n, g in ct.post(c2):
                ex.oblige(s, '%s: %s' % (key, n), g, 'post', hints=getattr(ct, 'hints', lambda c: [])(c2))
            if getattr(ct, 'balance', True):
                balance(ex, ct, c2)
            if getattr(ct, 'frame', True):
                for fld in st0.H:
                    if fld == 'rc' and getattr(ct, 'balance', True):
                        continue        # reference counts are accounted for by the balance obligations
                    if s.H[fld] is not st0.H[fld] and fld not in getattr(ct, 'writes', ()):
                        ex.oblige(s, '%s: does not write %s of any record' % (key, fld),
                                  s.H[fld] == st0.H[fld], 'frame')
        if not outs and not getattr(ct, 'diverges', False):
            res.error = 'VACUOUS: no path returns'
        elif outs and all(refuted(s) for s, r in outs):
            res.error = 'VACUOUS: every returning path has a contradictory path condition'
    except Unsupported as e:
        res.error = 'unsupported: %s' % e
    except RecursionError:
        res.error = 'unsupported: recursion limit'
    except z3.Z3Exception as e:
        res.error = 'unsupported: z3 %s' % e
    except (KeyError, IndexError, AttributeError, TypeError, AssertionError) as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        res.error = 'unsupported: %s %s at %s:%d' % (type(e).__name__, e, tb.filename.split('/')[-1], tb.lineno)
    res.obls = ex.obls
    res.secs = time.time() - t0
    return res


def refuted(st):
    s = z3.Solver()
    s.set('timeout', 300)
    s.add(*st.pc)
    return s.check() == z3.unsat


def has_ite(e):
    return z3.is_app(e) and (e.decl().kind() == z3.Z3_OP_ITE or any(has_ite(c) for c in e.children()))


def has_quant(e, seen=None):
    if z3.is_quantifier(e):
        return True
    seen = seen if seen is not None else set()
    if e.get_id() in seen:
        return False
    seen.add(e.get_id())
    return any(has_quant(c, seen) for c in e.children())


def type_inv(ex, st, v, guard=True):
    out = []
    for g, k, t in ex.W.handles(v, guard):
        if k == 'red':
            out.append(('returned handle denotes a live position of its tree', Implies(g, W.valid(st, t))))
    if isinstance(v, Agg) and v.ty in W.World.HANDLES:
        out.append(('node/token handle matches the element', Implies(guard, W.isnode(W.h(st, 'G', rec(v))) == (v.ty == 'cursor::SyntaxNode'))))
    elif isinstance(v, Agg):
        for x in v.f:
            out += [y for y in type_inv(ex, st, x, guard) if y[0].startswith('node/token')]
    elif isinstance(v, SEnum):
        for i, fs in v.vs.items():
            for x in fs:
                out += [y for y in type_inv(ex, st, x, And(guard, v.is_(i))) if y[0].startswith('node/token')]
    return out


def balance(ex, ct, cx):
    evs = list(cx.st.bal)
    for g, k, t in ex.W.handles(cx.ret):
        evs.append((g, k, t, -1))
    for a in cx.a:
        for g, k, t in ex.W.handles(a):
            evs.append((g, k, t, +1))
    for i in ct.modifies:
        for g, k, t in ex.W.handles(ex.load(cx.st0, cx.a[i])):
            evs.append((g, k, t, +1))
        for g, k, t in ex.W.handles(ex.load(cx.st, cx.a[i])):
            evs.append((g, k, t, -1))
    ids = {}
    for g, k, t, d in evs:
        ids[(k, str(t), str(g))] = ids.get((k, str(t), str(g)), 0) + d
    kinds = sorted({e[1] for e in evs})
    for k in kinds:
        ev = [e for e in evs if e[1] == k]
        if all(v == 0 for kk, v in ids.items() if kk[0] == k):
            ex.oblige(cx.st, '%s: %s reference counts balanced' % (ct.key, k), z3.BoolVal(True), 'mem')
            continue
        x = ex.sym('x')
        tot = z3.Sum([z3.If(And(g, I(t) == x), z3.IntVal(d), z3.IntVal(0)) for g, kk, t, d in ev])
        ex.oblige(cx.st, '%s: %s reference counts balanced' % (ct.key, k), tot == 0, 'mem')


# ------------------------------------------------------------------ discharge
AXIOMS = []


def conjuncts(g, hyp=()):
    """the goal as a list of goals: conjunctions split, quantified variables and hypotheses moved out"""
    if z3.is_quantifier(g) and g.is_forall():
        vs = [z3.FreshConst(g.var_sort(i), g.var_name(i)) for i in range(g.num_vars())]
        return conjuncts(z3.substitute_vars(g.body(), *reversed(vs)), hyp)
    if z3.is_and(g):
        return [x for c in g.children() for x in conjuncts(c, hyp)]
    if z3.is_implies(g):
        return conjuncts(g.arg(1), hyp + (g.arg(0),))
    return [z3.Implies(z3.And(*hyp), g) if hyp else g]


def discharge(o, tmo=10000):
    """-> (status, info): discharged / failed / timeout"""
    if z3.is_true(o.goal):
        return 'discharged', 'trivial'
    t0 = time.time()
    sat = False         # all instances the patterns select were made and the goal does not follow
    if o.ematch:
        rest = []
        for g in conjuncts(o.goal):
            for simple, auto, seed in ((False, True, 0), (False, False, 0), (True, False, 1), (True, True, 2)):
                s = z3.SimpleSolver() if simple else z3.Solver()
                # a resource limit, so that the answer does not depend on the load of the machine
                s.set('rlimit', 6000000)
                s.set('timeout', 30000)
                s.set('mbqi' if simple else 'smt.mbqi', False)
                s.set('random_seed' if simple else 'smt.random_seed', seed)
                s.set('auto_config', auto)
                s.add(*AXIOMS, *o.pc, *o.hints)
                s.add(z3.Not(g))
                r = s.check()
                if r == z3.unsat:
                    break
                sat = sat or r == z3.unknown and 'quantifiers' in s.reason_unknown()
            else:
                rest.append(g)
                break
        if not rest:
            return 'discharged', time.time() - t0
    s = z3.Solver()
    s.set('timeout', tmo)
    s.add(*AXIOMS)
    for c in o.pc:
        s.add(c)
    for hh in o.hints:
        s.add(hh)
    s.add(z3.Not(o.goal))
    r = s.check()
    if r == z3.unsat:
        return 'discharged', time.time() - t0
    if r == z3.sat:
        return 'failed', str(s.model())[:4000]
    why = s.reason_unknown()
    if 'incomplete' in why or 'quantifiers' in why:
        return 'failed', 'unknown: ' + why
    # second solver strategy
    s2 = z3.SolverFor('AUFLIA') if False else z3.Solver()
    s2.set('timeout', tmo)
    s2.set('smt.mbqi', False) if False else None
    s2.set('smt.arith.solver', 2)
    s2.add(*AXIOMS)
    s2.add(*o.pc)
    s2.add(*o.hints)
    s2.add(z3.Not(o.goal))
    r = s2.check()
    if r == z3.unsat:
        return 'discharged', time.time() - t0
    if r == z3.sat:
        return 'failed', str(s2.model())[:4000]
    if sat:
        return 'failed', 'unknown: not provable from the instances of the hypotheses the patterns select'
    return 'timeout', why

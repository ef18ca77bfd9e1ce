"""P15: the typed API (api.rs) delegates to the untyped one.

A typed function is verified against its body: the untyped function of the same
name is called exactly once, on the unwrapped arguments, and the typed result is
that call's result with handles wrapped and kinds converted."""
from core import *
from exec import *
from exec import I, B, And, Or, Implies, Not
import world as W
import models
from models import It

from_raw = z3.Function('L_kind_from_raw', z3.IntSort(), z3.IntSort())
to_raw = z3.Function('L_kind_to_raw', z3.IntSort(), z3.IntSort())
SKIP = ('Clone>::clone', 'Drop>::drop', '::new')


def lang_hook(Wd, ex, st, c, tn, tr, m, full, A, fr):
    if tr == 'Language' and m == 'kind_from_raw':
        return [(st, Opq('L::Kind', from_raw(A[0].f[0])))]
    if tr == 'Language' and m == 'kind_to_raw':
        k = to_raw(A[0].t)
        st.add(k >= 0, k <= 65535)
        return [(st, Agg('SyntaxKind', [k], ['0']))]
    if tr == 'IntoIterator' and isinstance(A[0], Opq):
        return [(st, A[0])]
    return None


def is_cursor(f):
    k = f.key or ''
    if '{closure' in k:
        return False
    if k.startswith('<cursor::') and ' as From<' in k or k.startswith('<NodeOrToken<cursor::SyntaxNode, cursor::SyntaxToken> as From<'):
        return False
    if any(x in k for x in ('Clone>::clone', 'Drop>::drop')):
        return False
    return k.startswith(('cursor::', '<cursor::', 'NodeOrToken<cursor::SyntaxNode, cursor::SyntaxToken>::'))


class Recorded(Contract):
    pass


def intercept(ex, st, f, args):
    """record a call into the untyped layer instead of looking into it"""
    if not is_cursor(f):
        return None
    r = Recorded()
    r.key = f.key
    after = {}
    s = st
    cx = Cx(ex, s, f, args)
    cx.st0 = s.fork()
    mods = []
    for i, (l, t) in enumerate(f.params):
        if t.startswith('&') and 'mut ' in t.split()[0] + ' ' + ''.join(t.split()[1:2]) + ' ' and isinstance(args[i], Ptr) and isinstance(args[i].base, int):
            v = ex.fresh(parse_ty(t).args[0], s, 'after')
            ex.store(s, args[i], v)
            after[i] = v
            mods.append(i)
    r.modifies = tuple(mods)
    before = [ex.load(cx.st0, a) if isinstance(a, Ptr) and isinstance(a.base, int) else a for a in args]
    ret = ex.fresh(f.ret, s, 'ret') if f.ret != '()' else UNIT
    cx.st, cx.ret = s, ret
    ex.W.contract_balance(ex, r, cx)
    s.ev.append((f.key, list(args), before, ret, after))
    return [(s, ret)]


# ------------------------------------------------------------ comparison of typed and untyped values
def strip(v):
    """the untyped value inside a typed one"""
    if isinstance(v, Agg) and v.ty.startswith('api::') and v.names and 'raw' in v.names:
        return strip(v.f[v.names.index('raw')])
    if isinstance(v, Agg):
        return Agg(v.ty, [strip(x) for x in v.f], v.names)
    if isinstance(v, SEnum):
        return SEnum(v.ty, v.d, {i: tuple(strip(x) for x in fs) for i, fs in v.vs.items()})
    return v


def same(ex, st, typed, raw):
    """typed value == untyped value with handles wrapped (and kinds converted)"""
    if isinstance(typed, It) and typed.k == 'map' and isinstance(raw, (Opq, Agg, It)) and not (isinstance(raw, It) and raw.k == 'map'):
        return And(same(ex, st, typed.inner, raw), conv_ok(ex, st, typed.f))
    if isinstance(raw, It) and raw.k == 'map' and isinstance(typed, Opq):
        return And(same(ex, st, typed, raw.inner), conv_ok(ex, st, raw.f))
    if isinstance(typed, It) and isinstance(raw, It):
        if typed.k != raw.k or set(typed.d) != set(raw.d):
            return z3.BoolVal(False)
        cs = []
        for k, x in typed.d.items():
            y = raw.d[k]
            if isinstance(x, (Agg, SEnum, It, Opq, Ptr)):
                cs.append(same(ex, st, x, y))
            elif z3.is_expr(x):
                cs.append(x == y)
            elif x != y and not isinstance(x, FnItem):
                return z3.BoolVal(False)
        return And(True, *cs)
    t = strip(typed)
    if isinstance(t, Opq) and t.ty == 'L::Kind' and isinstance(raw, Agg) and raw.ty == 'SyntaxKind':
        return t.t == from_raw(raw.f[0])
    if isinstance(t, Ptr) and isinstance(t.base, int) and isinstance(raw, Ptr) and isinstance(raw.base, int):
        return same(ex, st, ex.load(st, t), ex.load(st, raw))
    if isinstance(t, Agg) and t.ty.startswith('{closure@') or isinstance(raw, Agg) and raw.ty.startswith('{closure@'):
        return pred_same(ex, st, t, raw)
    if isinstance(t, Agg) and isinstance(raw, Agg) and len(t.f) == len(raw.f) and t.ty == raw.ty:
        return And(True, *[same(ex, st, x, y) for x, y in zip(t.f, raw.f)])
    if type(t) is not type(raw) and not (z3.is_expr(t) and z3.is_expr(raw)):
        return z3.BoolVal(False)
    try:
        return ex.veq(t, raw)
    except Unsupported:
        return z3.BoolVal(False)


def pred_same(ex, st, typed, raw):
    """the untyped predicate on a raw kind equals the typed predicate on the converted kind"""
    k = ex.sym('kind')
    s = st.fork()
    outs = ex.call_value(s, raw, [Agg('SyntaxKind', [k], ['0'])])
    tf = typed
    while isinstance(tf, Ptr):
        tf = ex.load(st, tf)
    g = z3.BoolVal(True)
    for s2, b in outs:
        want = models.call_opaque(ex.W, ex, s2, tf, [Opq('L::Kind', from_raw(k))])[0][1]
        g = And(g, Implies(And(True, *s2.pc[len(st.pc):]), b == want))
    return g


CONVS = ['api::SyntaxNode', 'api::SyntaxToken', 'NodeOrToken']


def conv_ok(ex, st, f):
    """f is a wrapping (or unwrapping) conversion of nodes, tokens or elements"""
    if not isinstance(f, FnItem):
        return z3.BoolVal(False)
    g = ex.find_fn(f.name)
    if g is None:
        return z3.BoolVal(False)
    s = st.fork()
    x = ex.fresh(g.params[0][1], s, 'conv')
    base = len(s.pc)
    goal = z3.BoolVal(True)
    for s2, r in ex.call(s, f.name, [x], None):
        goal = And(goal, Implies(And(True, *s2.pc[base:]), ex.veq(strip(x), strip(r))))
    return Implies(And(True, *s.pc[len(st.pc):base]), goal)


class Delegate(Contract):
    delegate = True
    opaque = 'bool'

    def __init__(self, targets, kind=None):
        self.targets = targets

    def exit(self, cx):
        pass

    def post(self, cx):
        ex, st = cx.ex, cx.st
        evs = st.ev
        a0 = cx.a[0]
        while isinstance(a0, Ptr) and isinstance(a0.base, int):
            a0 = ex.load(cx.st0, a0)
        t = strip(a0)
        name = 'calls %s exactly once on the unwrapped arguments and wraps its result' % self.targets[0]
        if len(evs) != 1:
            return [(name, z3.BoolVal(False))]
        key, args, before, ret, after = evs[0]
        if key not in self.targets:
            return [(name, z3.BoolVal(False))]
        cs = []
        raw0 = before[0]
        if isinstance(t, SEnum) and not isinstance(raw0, SEnum):
            i = 0 if 'SyntaxNode' in key else 1
            cs.append(And(t.is_(i), same(ex, cx.st0, t.vs[i][0], raw0)))
        else:
            cs.append(same(ex, cx.st0, t, raw0))
        if len(args) != len(cx.a):
            return [(name, z3.BoolVal(False))]
        for x, y in list(zip(cx.a, args))[1:]:
            cs.append(same(ex, st, x, y))
        cs.append(same(ex, st, cx.ret, ret) if not (isinstance(ret, Agg) and ret.ty == '()') else z3.BoolVal(True))
        for i, v in after.items():
            n = cx.a[i]
            while isinstance(n, Ptr) and isinstance(n.base, int):
                n = ex.load(st, n)
            cs.append(same(ex, st, n, v))
        return [(name, And(True, *cs))]


def deleg(key, *targets):
    o = Delegate(targets)
    o.key, o.props, o.inline = key, ('P15',), True
    if 'Iterator>::next' in key or key.endswith('skip_subtree'):
        o.modifies = (0,)
    CONTRACTS[key] = o


N, T, E = 'SyntaxNode', 'SyntaxToken', 'NodeOrToken<api::SyntaxNode, api::SyntaxToken>'
CE = 'NodeOrToken<cursor::SyntaxNode, cursor::SyntaxToken>'
for m in '''new_root new_root_mut replace_with kind text_range index text green parent ancestors children children_with_tokens
 first_child first_child_by_kind last_child first_child_or_token first_child_or_token_by_kind last_child_or_token next_sibling
 next_sibling_by_kind prev_sibling next_sibling_or_token next_sibling_or_token_by_kind prev_sibling_or_token first_token last_token
 siblings siblings_with_tokens descendants descendants_with_tokens preorder preorder_with_tokens token_at_offset covering_element
 child_or_token_at_range clone_subtree clone_for_update is_mutable detach splice_children'''.split():
    deleg('api::SyntaxNode::' + m, 'cursor::SyntaxNode::' + m)
for m in '''replace_with kind text_range index text green parent next_sibling_or_token prev_sibling_or_token siblings_with_tokens
 next_token prev_token detach ancestors'''.split():
    deleg('api::SyntaxToken::' + m, 'cursor::SyntaxToken::' + m)
deleg('api::SyntaxToken::parent_ancestors', 'cursor::SyntaxToken::ancestors')
for m in 'text_range index kind parent next_sibling_or_token prev_sibling_or_token detach'.split():
    deleg(E + '::' + m, 'cursor::SyntaxNode::' + m, 'cursor::SyntaxToken::' + m, CE + '::' + m)
for t in ('SyntaxNodeChildren', 'SyntaxElementChildren'):
    deleg('<api::%s as Iterator>::next' % t, '<cursor::%s as Iterator>::next' % t)
    deleg('api::%s::by_kind' % t, 'cursor::%s::by_kind' % t)
for t in ('Preorder', 'PreorderWithTokens'):
    deleg('<api::%s as Iterator>::next' % t, '<cursor::%s as Iterator>::next' % t)
    deleg('api::%s::skip_subtree' % t, 'cursor::%s::skip_subtree' % t)
for t in ('SyntaxNode', 'SyntaxToken'):
    deleg('<api::%s as PartialEq>::eq' % t, '<cursor::%s as PartialEq>::eq' % t)
    deleg('<api::%s as Hash>::hash' % t, '<cursor::%s as Hash>::hash' % t)


class Wrap(Contract):
    delegate = True

    def post(self, cx):
        return [('same handle', And(len(cx.st.ev) == 0, cx.ex.veq(strip(cx.a[0]), strip(cx.ret))))]


for k in ('<api::SyntaxNode as From<cursor::SyntaxNode>>::from', '<api::SyntaxToken as From<cursor::SyntaxToken>>::from',
          '<cursor::SyntaxNode as From<api::SyntaxNode>>::from', '<cursor::SyntaxToken as From<api::SyntaxToken>>::from'):
    o = Wrap()
    o.key, o.props, o.inline = k, ('P15',), True
    CONTRACTS[k] = o


class WrapElement(Wrap):
    def select(self, ex, fs):
        return fs[0]

    def post(self, cx):
        x = cx.a[0]
        r = cx.ret
        if isinstance(x, SEnum):
            return Wrap.post(self, cx)
        i = 0 if 'SyntaxNode' in x.ty else 1
        return [('the %s variant holding the same handle' % ('node', 'token')[i],
                 And(len(cx.st.ev) == 0, r.is_(i), cx.ex.veq(strip(x), strip(r.vs[i][0])) if i in r.vs else False))]


for k in ('<NodeOrToken<api::SyntaxNode, api::SyntaxToken> as From<api::SyntaxNode>>::from',
          '<NodeOrToken<api::SyntaxNode, api::SyntaxToken> as From<api::SyntaxToken>>::from',
          '<NodeOrToken<cursor::SyntaxNode, cursor::SyntaxToken> as From<cursor::SyntaxNode>>::from',
          '<NodeOrToken<cursor::SyntaxNode, cursor::SyntaxToken> as From<cursor::SyntaxToken>>::from'):
    o = WrapElement()
    o.key, o.props, o.inline = k, ('P15',), True
    CONTRACTS[k] = o


for k in ('<%s as From<%s>>::from' % (E, CE), '<%s as From<%s>>::from' % (CE, E)):
    o = Wrap()
    o.key, o.props, o.inline = k, ('P15',), True
    CONTRACTS[k] = o


@contract(E + '::ancestors', 'P15')
class ElemAncestors(Contract):
    delegate = True

    def post(self, cx):
        ex, st = cx.ex, cx.st
        e = S(cx).arg(0)
        r = cx.ret
        if not (isinstance(r, It) and r.k == 'succ'):
            raise Unsupported('ancestors is not built by successors')
        cs = []
        if len(st.ev) == 0:
            cs.append(opt_post(r.next, False, lambda p: And(e.is_(0), ex.veq(strip(p), strip(e.vs[0][0])))))
        else:
            key, args, before, ret, after = st.ev[0]
            cs.append(And(len(st.ev) == 1, key == 'cursor::SyntaxToken::parent', e.is_(1), ex.veq(before[0], strip(e.vs[1][0])),
                          same(ex, st, r.next, ret)))
        # the step
        s = st.fork()
        s.ev = []
        x = ex.fresh('api::SyntaxNode<L>', s, 'anc')
        base = len(s.pc)
        for s2, o in ex.call_value(s, r.f, [ex.alloc(s, x)]):
            ok = len(s2.ev) == 1 and s2.ev[0][0] == 'cursor::SyntaxNode::parent'
            cs.append(Implies(And(True, *s2.pc[len(st.pc):]), And(ok, ok and ex.veq(s2.ev[0][2][0], strip(x)), ok and same(ex, s2, o, s2.ev[0][3]))))
        return [('starts at the element (or the token\'s parent) and steps to the parent', And(*cs))]


def install(world):
    world.hooks.append(lang_hook)

"""P08: document order of tokens.  T(e) is the number of tokens before e in its
tree and ntok the number of tokens in a subtree; a token is determined by its
rank, so 'the token with rank T' states which token is returned."""
from core import *
from exec import *
from exec import I, B, And, Or, Implies, Not
import world as W
import models
from models import It
from world import ch, rel, isnode, kind, glen, gn, ntok, ptok
from spec_nav import SN, ST, SE, ND
from spec_iter import reg


def tok_at(st, v, root, k):
    r = W.Rec(st, rec(v))
    return And(Not(isnode(r.G)), r.T == k, r.root == root)


class EdgeToken(Contract):
    """first/last token of a subtree"""

    def __init__(self, last):
        self.last = last

    def post(self, cx):
        r = W.Rec(cx.st0, rec(S(cx).arg(0)))
        k = r.T + ntok(r.G) - 1 if self.last else r.T
        return [('the %s token of the subtree; None iff the subtree has no token' % ('rightmost' if self.last else 'leftmost'),
                 opt_post(cx.ret, ntok(r.G) == 0, lambda v: And(ntok(r.G) > 0, tok_at(cx.st, v, r.root, k))))]


class Neighbour(Contract):
    def __init__(self, nxt):
        self.nxt = nxt

    def post(self, cx):
        r = W.Rec(cx.st0, rec(S(cx).arg(0)))
        total = ntok(W.h(cx.st0, 'G', r.root))
        k = r.T + 1 if self.nxt else r.T - 1
        return [('the token %s it in the document order of the whole tree; None iff there is none' % ('after' if self.nxt else 'before'),
                 opt_post(cx.ret, Not(And(k >= 0, k < total)), lambda v: And(k >= 0, k < total, tok_at(cx.st, v, r.root, k))))]


for T in (SN, SE):
    reg(T + '::first_token', EdgeToken(False), 'P08')
    reg(T + '::last_token', EdgeToken(True), 'P08')
reg(ST + '::next_token', Neighbour(True), 'P08')
reg(ST + '::prev_token', Neighbour(False), 'P08')


def el_id(v):
    return rec(v)


def succ_some(it):
    return opt(it.next)


class SuccSearch:
    """invariant of a search along a successors iterator: the pending element
    (if any) is where the wanted rank can still be, otherwise it is past the end"""

    def havoc(self, cx, st, it):
        if not (isinstance(it, It) and it.k == 'succ'):
            raise Unsupported('the search is not along a successors iterator')
        ty = self.item(cx, it)
        o = cx.ex.fresh('std::option::Option<%s>' % ty, st, 'el')
        if isinstance(it.f, Agg):
            pass
        return it.with_(next=o)

    EL = 'utility_types::NodeOrToken<cursor::SyntaxNode, cursor::SyntaxToken>'

    def item(self, cx, it):
        return self.EL


class EdgeInv(SuccSearch):
    def __init__(self, last):
        self.last = last

    def inv(self, cx, st, it):
        me = self.me(cx)
        r = W.Rec(st, me)
        some, v = opt(it.next)
        done = ntok(r.G) == 0
        if v is None:
            return [('nothing left: no token in the subtree', done)]
        e = W.Rec(st, rec(v))
        here = e.T == r.T if not self.last else e.T + ntok(e.G) == r.T + ntok(r.G)
        return [('the pending child starts at the wanted rank', Implies(some, And(e.P == me, here))),
                ('nothing left: no token in the subtree', Implies(Not(some), done))]

    def me(self, cx):
        return rec(cx.ex.top_args[0] if not isinstance(cx.ex.top_args[0], Ptr) or not isinstance(cx.ex.top_args[0].base, int)
                   else cx.ex.load(cx.entry, cx.ex.top_args[0]))


class NeighbourInv(EdgeInv):
    """next/prev token: search the following siblings, then those of every ancestor"""

    def __init__(self, nxt):
        self.nxt = nxt

    def item(self, cx, it):
        return self.EL if self.over_elements(it) else SN

    @staticmethod
    def over_elements(it):
        some, v = opt(it.next)
        if v is None:
            return isinstance(it.f, Agg)      # siblings: the step closure captures the direction
        return isinstance(v, SEnum)

    def inv(self, cx, st, it):
        me = self.me(cx)
        r = W.Rec(st, me)
        k = r.T + 1 if self.nxt else r.T        # boundary rank between self and its neighbour
        edge = lambda e: e.T + ntok(e.G) == k if self.nxt else e.T == k
        start = lambda e: e.T == k if self.nxt else e.T + ntok(e.G) == k
        some, v = opt(it.next)
        if cx.skipped:                          # siblings of base
            base = cx.skipped[0]
            b = W.Rec(st, rec(base))
            q = W.Rec(st, b.P)
            end = z3.If(b.P == 0, edge(b), edge(q))
            if v is None:
                return [('no further sibling: the boundary is at the edge of the parent', end)]
            e = W.Rec(st, rec(v))
            return [('the pending sibling is adjacent to the boundary', Implies(some, And(e.P == b.P, e.P != 0, start(e), e.root == r.root))),
                    ('no further sibling: the boundary is at the edge of the parent', Implies(Not(some), end))]
        root = W.Rec(st, r.root)
        end = edge(root)
        if v is None:
            return [('no further ancestor: the boundary is at the edge of the tree', end)]
        e = W.Rec(st, rec(v))
        return [('the boundary is at the edge of the pending ancestor', Implies(some, And(edge(e), e.root == r.root))),
                ('no further ancestor: the boundary is at the edge of the tree', Implies(Not(some), end))]


def install(world):
    world.searches[SN + '::first_token'] = EdgeInv(False)
    world.searches[SN + '::last_token'] = EdgeInv(True)
    world.searches[ST + '::next_token'] = NeighbourInv(True)
    world.searches[ST + '::prev_token'] = NeighbourInv(False)

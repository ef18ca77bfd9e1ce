"""Parser for rustc's textual MIR (-Zunpretty=mir, -Zmir-opt-level=0), dumped
from /repo's current source on every run.  Nothing is dropped except debug
scopes' spans; cleanup (unwind) blocks are kept but flagged."""
import os, re, subprocess, shutil

OPEN = {'(': ')', '[': ']', '{': '}', '<': '>'}


class ParseError(Exception):
    pass


def split_top(s, sep=','):
    """split at top-level separators (quote-, bracket- and arrow-aware)"""
    out, depth, cur, i, n = [], 0, [], 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            j = i + 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            cur.append(s[i:j + 1]); i = j + 1; continue
        if c == "'" :
            m = re.match(r"'(\\.[^']*|[^'\\])'", s[i:])
            if m:
                cur.append(m.group(0)); i += len(m.group(0)); continue
        if c in '([{<':
            depth += 1
        elif c in ')]}':
            depth -= 1
        elif c == '>' and not (i and s[i - 1] in '-='):
            depth -= 1
        if depth == 0 and s.startswith(sep, i):
            out.append(''.join(cur).strip()); cur = []; i += len(sep); continue
        cur.append(c); i += 1
    t = ''.join(cur).strip()
    if t or out:
        out.append(t)
    return [x for x in out if x != '']


def find_close(s, i):
    """index of the bracket matching s[i]"""
    depth, n = 0, len(s)
    j = i
    while j < n:
        c = s[j]
        if c == '"':
            j += 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == '\\' else 1
        elif c == "'":
            m = re.match(r"'(\\.[^']*|[^'\\])'", s[j:])
            if m:
                j += len(m.group(0)) - 1
        elif c in '([{<':
            depth += 1
        elif c in ')]}' or (c == '>' and s[j - 1] not in '-='):
            depth -= 1
            if depth == 0:
                return j
        j += 1
    raise ParseError('unbalanced: ' + s[i:i + 80])


# ---------------------------------------------------------------- types
# names that exist both in cursor.rs and in api.rs keep their module
AMBIG = {'SyntaxNode', 'SyntaxToken', 'Preorder', 'PreorderWithTokens', 'SyntaxNodeChildren', 'SyntaxElementChildren',
         'SyntaxNodeChildrenByKind', 'SyntaxElementChildrenByKind'}
ALIAS = {'SyntaxElement': ('SyntaxNode', 'SyntaxToken'), 'GreenElement': ('GreenNode', 'GreenToken'),
         'GreenElementRef': ('GreenNodeData', 'GreenTokenData')}
CONCRETE = {'NodeOrToken<cursor::SyntaxNode, cursor::SyntaxToken>', 'NodeOrToken<api::SyntaxNode, api::SyntaxToken>',
            'NodeOrToken<GreenNode, GreenToken>', 'NodeOrToken<GreenNodeData, GreenTokenData>'}


class Ty:
    __slots__ = ('kind', 'name', 'args', 's')

    def __init__(self, kind, name, args, s):
        self.kind, self.name, self.args, self.s = kind, name, args, s

    def __repr__(self):
        return self.s


_tycache = {}


def parse_ty(s):
    s = s.strip()
    t = _tycache.get(s)
    if t is None:
        t = _parse_ty(s)
        _tycache[s] = t
    return t


def _parse_ty(s):
    if s.startswith('&'):
        r = s[1:].strip()
        r = re.sub(r"^'[A-Za-z_0-9]+\s+", '', r)
        if r.startswith('mut '):
            return Ty('ref', '&mut', [parse_ty(r[4:])], s)
        return Ty('ref', '&', [parse_ty(r)], s)
    if s.startswith('*const '):
        return Ty('ptr', '*const', [parse_ty(s[7:])], s)
    if s.startswith('*mut '):
        return Ty('ptr', '*mut', [parse_ty(s[5:])], s)
    if s.startswith('('):
        j = find_close(s, 0)
        if j == len(s) - 1:
            return Ty('tuple', '()', [parse_ty(x) for x in split_top(s[1:j])], s)
    if s.startswith('['):
        inner = s[1:-1]
        p = split_top(inner, ';')
        if len(p) == 2:
            return Ty('array', '[;]', [parse_ty(p[0])], s)
        return Ty('slice', '[]', [parse_ty(inner)], s)
    if s.startswith('{closure@'):
        return Ty('closure', s, [], s)
    if s.startswith('impl ') or s.startswith('dyn '):
        return Ty('opaque', s, [], s)
    if re.match(r'(for<.*> )?(unsafe )?(extern "[^"]*" )?fn\(', s):
        return Ty('fnptr', s, [], s)
    if s.startswith('<'):
        return Ty('proj', s, [], s)
    m = re.match(r'[^<]*', s)
    base = m.group(0)
    rest = s[len(base):]
    if rest:
        j = find_close(rest, 0)
        args = [a for a in split_top(rest[1:j]) if not a.startswith("'")]
        if j == len(rest) - 1:
            return Ty('adt', base.rstrip(':'), [parse_ty(a) for a in args if '=' not in a.split('<')[0]], s)
        return Ty('proj', s, [], s)
    return Ty('adt', base, [], s)


# ---------------------------------------------------------------- MIR
class Fn:
    def __init__(self):
        self.name = self.key = None
        self.params = []       # [(local, type)]
        self.ret = None
        self.locals = {}       # local -> type string
        self.debug = []        # [(name, place string)]
        self.blocks = {}       # name -> (stmts, term)
        self.cleanup = set()
        self.promoted = {}
        self.is_const = False
        self.const_text = None

    def loops(self):
        """natural loops over non-cleanup blocks: {header: set(blocks)}"""
        succ = {b: self.succs(b) for b in self.blocks if b not in self.cleanup}
        order, state, back = [], {}, []
        stack = [('bb0', iter(succ.get('bb0', [])))]
        state['bb0'] = 1
        while stack:
            b, it = stack[-1]
            for t in it:
                if t in self.cleanup or t not in succ:
                    continue
                if state.get(t) == 1:
                    back.append((b, t))
                elif t not in state:
                    state[t] = 1
                    stack.append((t, iter(succ[t])))
                    break
            else:
                state[b] = 2
                order.append(b)
                stack.pop()
        pred = {}
        for b, ts in succ.items():
            for t in ts:
                pred.setdefault(t, []).append(b)
        res = {}
        for b, h in back:
            body = res.setdefault(h, {h})
            work = [b]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work += [p for p in pred.get(x, []) if p in state]
        return res

    def succs(self, b):
        t = self.blocks[b][1]
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x for _, x in t[2]] + ([t[3]] if t[3] else [])
        if k in ('call', 'drop', 'assert'):
            return [t[-1]] if t[-1] else []
        return []


def parse_place(s):
    m = re.match(r'(.*) as (.*) \((?:BoxDerefTransmute|Transmute)\)$', s.strip(), re.S)
    if m:
        return parse_place(m.group(1))
    return _parse_place(s)


def _parse_place(s):
    """-> (local, [proj]) ; proj: ('deref',) ('field',n,ty) ('variant',name) ('index',local) ('constindex',text) """
    s = s.strip()
    p, rest = _place(s)
    if rest.strip():
        raise ParseError('place: ' + s)
    return p


def _place(s):
    s = s.lstrip()
    if s.startswith('('):
        j = find_close(s, 0)
        inner = s[1:j]
        rest = s[j + 1:]
        if inner.startswith('*'):
            p = parse_place(inner[1:])
            base = (p[0], p[1] + [('deref',)])
        else:
            # (PLACE.N: TYPE) or (PLACE as Variant)
            p, r = _place(inner)
            r = r.strip()
            m = re.match(r'\.(\d+): (.*)$', r, re.S)
            if m:
                base = (p[0], p[1] + [('field', int(m.group(1)), m.group(2))])
            else:
                m = re.match(r'as (variant#\d+|\w+)$', r)
                if not m:
                    raise ParseError('place: ' + s)
                base = (p[0], p[1] + [('variant', m.group(1))])
    else:
        m = re.match(r'_\d+', s)
        if not m:
            raise ParseError('place: ' + s)
        base = (m.group(0), [])
        rest = s[m.end():]
    while rest.startswith('['):
        j = find_close(rest, 0)
        ix = rest[1:j]
        if re.match(r'_\d+$', ix):
            base = (base[0], base[1] + [('index', ix)])
        else:
            base = (base[0], base[1] + [('constindex', ix)])
        rest = rest[j + 1:]
    return base, rest


def parse_operand(s):
    s = s.strip()
    if s.startswith('no_retag '):
        s = s[9:]
    if s.startswith('copy '):
        return ('copy', parse_place(s[5:]))
    if s.startswith('move '):
        return ('move', parse_place(s[5:]))
    if s.startswith('const '):
        return ('const', s[6:])
    # bare function item / constant
    return ('const', s)


BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitXor', 'BitAnd', 'BitOr', 'Shl', 'Shr', 'Eq', 'Lt', 'Le', 'Ne',
          'Ge', 'Gt', 'Cmp', 'Offset', 'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow', 'AddUnchecked',
          'SubUnchecked', 'MulUnchecked', 'ShlUnchecked', 'ShrUnchecked'}


def parse_rvalue(s):
    s = s.strip()
    if s.startswith('no_retag '):
        s = s[9:]
    m = re.match(r'([A-Za-z]+)\(', s)
    if m and m.group(1) in BINOPS:
        j = find_close(s, m.end() - 1)
        a = split_top(s[m.end():j])
        return ('bin', m.group(1), parse_operand(a[0]), parse_operand(a[1]))
    if m and m.group(1) in ('Not', 'Neg', 'PtrMetadata'):
        j = find_close(s, m.end() - 1)
        return ('un', m.group(1), parse_operand(s[m.end():j]))
    if s.startswith('discriminant('):
        return ('discr', parse_place(s[13:-1]))
    if s.startswith('Len('):
        return ('len', parse_place(s[4:-1]))
    if s.startswith('&raw const ') or s.startswith('&raw mut '):
        return ('ref', parse_place(s.split(' ', 2)[2]))
    if s.startswith('&'):
        r = s[1:].strip()
        r = re.sub(r'^(mut|fake shallow|fake|shallow) ', '', r)
        return ('ref', parse_place(r))
    if s.startswith(('copy ', 'move ', 'const ')):
        # maybe a cast:  OP as TYPE (Kind)
        parts = split_top(s, ' as ')
        if len(parts) == 2 and s.endswith(')'):
            m = re.match(r'(.*) \((\w+)(?:\((.*)\))?\)$', parts[1], re.S)
            if m and m.group(2) in ('IntToInt', 'PtrToPtr', 'Transmute', 'PointerCoercion', 'FnPtrToPtr', 'PointerExposeProvenance',
                                    'PointerWithExposedProvenance', 'Subtype', 'IntToFloat', 'FloatToInt', 'FloatToFloat'):
                return ('cast', parse_operand(parts[0]), m.group(1), m.group(2), m.group(3))
        return ('use', parse_operand(s))
    if s.startswith('('):
        j = find_close(s, 0)
        if j == len(s) - 1:
            return ('tuple', [parse_operand(x) for x in split_top(s[1:j])])
    if s.startswith('['):
        inner = s[1:-1]
        p = split_top(inner, ';')
        if len(p) == 2:
            return ('repeat', parse_operand(p[0]), p[1])
        return ('array', [parse_operand(x) for x in split_top(inner)])
    if s.startswith('{closure@'):
        j = find_close(s, 0)
        name = s[:j + 1]
        rest = s[j + 1:].strip()
        caps = []
        if rest.startswith('{'):
            for x in split_top(rest[1:-1]):
                k, v = x.split(':', 1)
                caps.append((k.strip(), parse_operand(v)))
        elif rest.startswith('('):
            caps = [(str(i), parse_operand(x)) for i, x in enumerate(split_top(rest[1:-1]))]
        return ('closure', name, caps)
    # aggregates: Path { f: op } | Path(op,..) | Path
    if s.endswith('}'):
        i = _last_group(s, '{')
        path = s[:i].strip()
        fs = []
        for x in split_top(s[i + 1:-1]):
            k, v = x.split(':', 1)
            fs.append((k.strip(), parse_operand(v)))
        return ('agg', path, fs)
    if s.endswith(')'):
        i = _last_group(s, '(')
        path = s[:i].strip()
        if path:
            return ('agg', path, [(str(k), parse_operand(x)) for k, x in enumerate(split_top(s[i + 1:-1]))])
    return ('agg', s, [])


def _last_group(s, ch):
    """start index of the bracket group that ends the string"""
    n = len(s)
    i = 0
    while i < n:
        c = s[i]
        if c == '"':
            i += 1
            while i < n and s[i] != '"':
                i += 2 if s[i] == '\\' else 1
            i += 1
            continue
        if c in '([{<':
            j = find_close(s, i)
            if j == n - 1 and c == ch:
                return i
            i = j + 1
            continue
        i += 1
    raise ParseError('no trailing group: ' + s)


def parse_targets(s):
    m = re.search(r'return: (bb\d+)', s)
    return m.group(1) if m else None


def parse_term(s):
    s = s.strip()
    if s.startswith('goto -> '):
        return ('goto', s[8:].strip())
    if s == 'return':
        return ('return',)
    if s == 'unreachable':
        return ('unreachable',)
    if s.startswith('resume') or s.startswith('terminate') or s.startswith('unwind'):
        return ('resume',)
    if s.startswith('switchInt('):
        j = find_close(s, 9)
        op = parse_operand(s[10:j])
        arms, other = [], None
        k = s.index('[', j)
        for x in split_top(s[k + 1:s.rindex(']')]):
            a, b = x.rsplit(':', 1)
            b = b.strip()
            if a.strip() == 'otherwise':
                other = b
            else:
                arms.append((int(a), b))
        return ('switch', op, arms, other)
    if s.startswith('drop('):
        j = find_close(s, 4)
        return ('drop', parse_place(s[5:j]), parse_targets(s[j:]))
    if s.startswith('assert('):
        j = find_close(s, 6)
        a = split_top(s[7:j])
        c = a[0].strip()
        exp = True
        if c.startswith('!'):
            exp, c = False, c[1:]
        m = re.search(r'success: (bb\d+)', s[j:])
        return ('assert', parse_operand(c), exp, a[1] if len(a) > 1 else '', m.group(1))
    if s.startswith('falseEdge') or s.startswith('falseUnwind'):
        m = re.search(r'real: (bb\d+)', s)
        return ('goto', m.group(1))
    # call:  PLACE = FUNC(args) -> ...
    parts = split_top(s, ' -> ')
    # function types may contain ' -> ' only inside brackets, so the last part is the targets
    tgt = parts[-1]
    body = s[:len(s) - len(tgt)].rstrip()
    assert body.endswith('->')
    body = body[:-2].rstrip()
    eq = split_top(body, ' = ')
    if len(eq) < 2:
        raise ParseError('call: ' + s)
    dest = eq[0]
    call = body[len(dest) + 3:].strip()
    i = _last_group(call, '(')
    f = call[:i].strip()
    args = [parse_operand(x) for x in split_top(call[i + 1:-1])]
    if f.startswith(('move ', 'copy ')):
        fv = parse_operand(f)
    else:
        fv = f
    return ('call', parse_place(dest), fv, args, parse_targets(tgt))


TERM = re.compile(r'(goto ->|return$|unreachable$|resume|terminate|switchInt\(|drop\(|assert\(|falseEdge|falseUnwind)')


def parse_stmt(s):
    if s.startswith(('StorageLive', 'StorageDead', 'nop', 'FakeRead', 'PlaceMention', 'AscribeUserType', 'Coverage', 'ConstEvalCounter', 'Retag', 'BackwardIncompatibleDropHint')):
        return None
    if s.startswith('discriminant('):
        m = re.match(r'discriminant\((.*)\) = (\d+)$', s)
        return ('setdiscr', parse_place(m.group(1)), int(m.group(2)))
    if s.startswith('assume(') or s.startswith('copy_nonoverlapping('):
        return ('intrinsic', s)
    eq = split_top(s, ' = ')
    if len(eq) < 2:
        raise ParseError('stmt: ' + s)
    return ('assign', parse_place(eq[0]), parse_rvalue(s[len(eq[0]) + 3:]))


HEAD = re.compile(r'^(?:(const|static|static mut) (.*?): (.*?) = (.*)|fn (.*))$')


class Program:
    def __init__(self, text, repo):
        self.text = text
        self.fns = {}
        self.repo = repo
        self.src = {}
        self.closures = {}     # closure type string -> fn name
        self.consts = {}
        self._parse(text)
        self._index()

    def _parse(self, text):
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('fn ') and ln.endswith('{'):
                i = self._fn(lines, i, ln[3:-1].strip(), False)
            elif ln.startswith(('const ', 'static ')) or re.match(r'promoted\[', ln):
                i = self._const(lines, i)
            else:
                i += 1

    def _const(self, lines, i):
        ln = lines[i]
        m = re.match(r'(?:const |static (?:mut )?)?(.*?): ((?:(?! = ).)*) = (.*)$', ln)
        # names contain ': ' inside <impl at a:b: c:d>; find the type separator properly
        body = re.sub(r'^(const|static mut|static) ', '', ln)
        pr = re.match(r'promoted\[(\d+)\] in ', body)
        rest = body[pr.end():] if pr else body
        parts = split_top(rest, ': ')
        name = parts[0]
        if ln.rstrip().endswith('= {'):
            f = Fn()
            f.is_const = True
            f.name = ('promoted[%s] in ' % pr.group(1) if pr else '') + name
            ty = rest[len(name) + 2:].rstrip()[:-3].rstrip()
            f.ret = ty
            return self._body(lines, i + 1, f)
        val = split_top(rest, ' = ')
        self.consts[name] = val[-1].rstrip(';')
        return i + 1

    def _fn(self, lines, i, head, _):
        f = Fn()
        # NAME(params) -> RET
        # params start at the first '(' after the name at top level where it is '(_1' or '()'
        m = re.search(r'\((_1: |\))', head)
        f.name = head[:m.start()]
        j = find_close(head, m.start())
        for p in split_top(head[m.start() + 1:j]):
            l, t = p.split(':', 1)
            f.params.append((l.strip(), t.strip()))
            f.locals[l.strip()] = t.strip()
        r = head[j + 1:].strip()
        f.ret = r[2:].strip() if r.startswith('->') else '()'
        return self._body(lines, i + 1, f)

    def _body(self, lines, i, f):
        cur, stmts = None, []
        buf = ''
        n = len(lines)
        while i < n:
            raw = lines[i]
            i += 1
            if raw == '}':
                break
            ln = raw.strip()
            if not ln:
                continue
            if cur is None and not buf:
                m = re.match(r'(bb\d+)( \(cleanup\))?: \{$', ln)
                if m:
                    cur = m.group(1)
                    stmts = []
                    if m.group(2):
                        f.cleanup.add(cur)
                    continue
                if ln.startswith('debug '):
                    m = re.match(r'debug (.*?) => (.*);$', ln)
                    f.debug.append((m.group(1), m.group(2)))
                elif ln.startswith('let '):
                    m = re.match(r'let (?:mut )?(_\d+): (.*);$', ln)
                    if m:
                        f.locals[m.group(1)] = m.group(2)
                continue
            if cur is not None:
                if ln == '}' and not buf:
                    cur = None
                    continue
                buf = (buf + ' ' + ln) if buf else ln
                if not buf.endswith(';'):
                    continue
                s = buf[:-1]
                buf = ''
                if TERM.match(s) or re.search(r' -> (\[return|unwind|bb\d+)', s) and (' = ' in s) and self._is_call(s):
                    f.blocks[cur] = (stmts, ('raw', s))
                else:
                    stmts.append(s)
        if f.name in self.fns:
            # constructors print twice (the second copy is the const-eval one)
            pass
        else:
            self.fns[f.name] = f
        return i

    @staticmethod
    def _is_call(s):
        return bool(re.search(r' -> (\[return: bb\d+.*\]|unwind (continue|unreachable|terminate\(.*\)|bb\d+)|bb\d+)$', s))

    def prepare(self, f):
        """parse the statements of a body lazily"""
        if getattr(f, 'ready', False):
            return f
        for b, (ss, t) in list(f.blocks.items()):
            if b in f.cleanup:
                f.blocks[b] = ([], ('resume',))
                continue
            out = [x for x in (parse_stmt(s) for s in ss) if x]
            f.blocks[b] = (out, parse_term(t[1]))
        f.ready = True
        return f

    # ------------------------------------------------ names
    def _index(self):
        self.bykey = {}
        for name, f in self.fns.items():
            if name.startswith('promoted[') or re.search(r'::promoted\[\d+\]$', name):
                continue
            f.key = self.key_of(f)
            self.bykey.setdefault(f.key, []).append(f)
            if '{closure#' in name and f.params:
                m = re.search(r'\{closure@[^}]*\}', f.params[0][1])
                if m and name.endswith('}'):
                    self.closures.setdefault(m.group(0), f)
        for name, f in self.fns.items():
            m = re.match(r'()(.*)::promoted\[(\d+)\]$', name, re.S)
            if m:
                g = self.fns.get(m.group(2))
                if g is not None:
                    g.promoted[int(m.group(3))] = f

    def line(self, file, ln):
        if file not in self.src:
            self.src[file] = open(os.path.join(self.repo, file)).read().split('\n')
        return self.src[file]

    def impl_header(self, file, l1, c1, l2, c2):
        L = self.line(file, l1)
        if l1 == l2:
            return L[l1 - 1][c1 - 1:c2 - 1]
        return ' '.join([L[l1 - 1][c1 - 1:]] + L[l1:l2 - 1] + [L[l2 - 1][:c2 - 1]])

    def key_of(self, f):
        """canonical key, independent of source positions:
        module::Type::method, <module::Type as Trait>::method, or module::function;
        closures keep {closure#n} suffixes."""
        name = f.name
        m = re.search(r'<impl at ([^:>]+):(\d+):(\d+): (\d+):(\d+)>', name)
        if not m:
            return name
        mod = name[:m.start()].rstrip(':').split('::')[0]
        rest = name[m.end():].lstrip(':')
        self.mod = 'api' if mod in ('api', 'ast', 'serde_impls') else 'cursor'
        hdr = self.impl_header(m.group(1), *map(int, m.groups()[1:]))
        hdr = re.sub(r'\s+', ' ', hdr).strip()
        if hdr.startswith(('impl', 'unsafe impl')):
            h = hdr[hdr.index('impl') + 4:].strip()
            if h.startswith('<'):
                j = find_close(h, 0)
                h = h[j + 1:].strip()
            h = re.sub(r' where .*$', '', h)
            parts = split_top(h, ' for ')
            if len(parts) == 2:
                return '<%s as %s>::%s' % (self.abbr(parts[1]), self.trait(parts[0]), rest)
            return '%s::%s' % (self.abbr(parts[0]), rest)
        # derive: header text is the derived trait's name
        tr = hdr
        selfty = None
        meth = rest.split('::')[0]
        if f.params:
            selfty = f.params[0][1]
            if '{closure@' in selfty:
                selfty = None
        if selfty is None or meth == 'default':
            selfty = f.ret
        if meth == 'deserialize':
            selfty = f.ret
        return '<%s as %s>::%s' % (self.abbr(selfty), tr, rest)

    def trait(self, t):
        t = t.strip()
        base = re.sub(r'<.*$', '', t).split('::')[-1]
        if base in ('From', 'PartialEq', 'Into', 'TryFrom'):
            m = re.match(r'[^<]*<(.*)>$', t)
            if m:
                return base + '<' + self.abbr(m.group(1)) + '>'
        return base

    def abbr(self, t):
        """type text -> last path segments without generics/lifetimes/refs"""
        t = t.strip()
        t = re.sub(r"^&('\w+ )?(mut )?", '', t)
        ty = parse_ty(t)
        if ty.kind == 'adt':
            segs = ty.name.split('::')
            nm = segs[-1]
            if nm in ALIAS:
                md = [x for x in segs[:-1] if x in ('api', 'cursor')]
                pre = md[0] + '::' if md else ''
                return 'NodeOrToken<%s, %s>' % tuple(self.abbr(pre + a if a in AMBIG else a) for a in ALIAS[nm])
            if nm == 'NodeOrToken' and len(ty.args) == 2:
                a = 'NodeOrToken<%s, %s>' % (self.abbr(ty.args[0].s), self.abbr(ty.args[1].s))
                return a if a in CONCRETE else 'NodeOrToken'
            if nm in AMBIG:
                return (segs[0] if len(segs) > 1 else self.mod) + '::' + nm
            return nm
        if ty.kind == 'tuple':
            return '(' + ', '.join(self.abbr(a.s) for a in ty.args) + ')'
        if ty.kind == 'slice':
            return '[' + self.abbr(ty.args[0].s) + ']'
        return t


def dump(repo, target, log=None):
    """MIR of the current tree; returns text"""
    shutil.rmtree(target, ignore_errors=True)
    env = dict(os.environ)
    env['CARGO_NET_OFFLINE'] = 'true'
    p = subprocess.run(
        ['cargo', '+nightly', 'rustc', '--offline', '--lib', '--features', 'serde1', '--manifest-path',
         os.path.join(repo, 'Cargo.toml'), '--target-dir', target, '--', '-Zunpretty=mir', '-Zmir-opt-level=0',
         '-Ztrim-diagnostic-paths=no', '-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums'],
        capture_output=True, text=True, env=env)
    if p.returncode != 0:
        raise RuntimeError('mir dump failed: ' + p.stderr[-2000:])
    return p.stdout

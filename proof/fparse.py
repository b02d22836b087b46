"""Parser for the subset of free-form Fortran 90+ used by igalib.f90.

Everything is lower-cased (Fortran is case-insensitive).  Anything outside the subset raises
FrontendError: nothing is skipped silently.

AST expressions
  ('int', n) ('real', Fraction) ('log', bool) ('str', s) ('name', n)
  ('ref', name, [args])          array element / section / function call
  ('slice', lo, hi, step)        (in args)       ('kw', name, expr) (in args)
  ('un', op, e) ('bin', op, a, b) ('arr', [e...])
AST statements (dataclass S): kind + fields, with .line
"""
import re
from fractions import Fraction


class FrontendError(Exception):
    pass


class S:
    def __init__(self, kind, line, **kw):
        self.kind, self.line = kind, line
        self.__dict__.update(kw)

    def __repr__(self):
        return 'S(%s@%d)' % (self.kind, self.line)


class Decl:
    def __init__(self, name, typ, dims, intent, optional, value):
        self.name, self.typ, self.dims = name, typ, dims
        self.intent, self.optional, self.value = intent, optional, value


class Unit:
    def __init__(self, kind, name, args, result, line):
        self.kind, self.name, self.args, self.result, self.line = kind, name, args, result, line
        self.decls, self.body, self.contains, self.uses = {}, [], {}, []
        self.module = self.parent = None

    def __repr__(self):
        return '%s %s.%s' % (self.kind, self.module, self.name)


TOK = re.compile(r"""\s*(?:
  (?P<real>(?:\d+\.\d*(?![a-z])|\.\d+|\d+(?=[ed][+-]?\d))(?:[ed][+-]?\d+)?(?:_\w+)?)
 |(?P<int>\d+(?:_\w+)?)
 |(?P<dot>\.[a-z]+\.)
 |(?P<name>[a-z]\w*)
 |(?P<str>'[^']*'|"[^"]*")
 |(?P<op>\*\*|==|/=|<=|>=|=>|//|::|\(/|/\)|[-+*/<>=(),:%])
)""", re.X)


def tokenize(s, line):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        # keep "(/=" style ambiguity away: '/)' only closes an array constructor we do not use
        m = TOK.match(s, i)
        if not m:
            raise FrontendError('line %d: cannot tokenize %r' % (line, s[i:i + 30]))
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out


BINP = {'.or.': 1, '.and.': 2, '.eqv.': 0, '.neqv.': 0,
        '==': 4, '/=': 4, '<': 4, '<=': 4, '>': 4, '>=': 4,
        '.eq.': 4, '.ne.': 4, '.lt.': 4, '.le.': 4, '.gt.': 4, '.ge.': 4,
        '+': 6, '-': 6, '*': 7, '/': 7, '**': 9}
ALIAS = {'.eq.': '==', '.ne.': '/=', '.lt.': '<', '.le.': '<=', '.gt.': '>', '.ge.': '>='}


class P:
    def __init__(self, toks, line):
        self.t, self.i, self.line = toks, 0, line

    def peek(self, o=0):
        return self.t[self.i + o][1] if self.i + o < len(self.t) else None

    def kind(self, o=0):
        return self.t[self.i + o][0] if self.i + o < len(self.t) else None

    def next(self):
        if self.i >= len(self.t):
            raise FrontendError('line %d: unexpected end' % self.line)
        self.i += 1
        return self.t[self.i - 1][1]

    def expect(self, x):
        g = self.next()
        if g != x:
            raise FrontendError('line %d: expected %r, got %r' % (self.line, x, g))

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def end(self):
        return self.i >= len(self.t)

    def expr(self, minp=0):
        t = self.peek()
        if t == '.not.':
            self.next()
            left = ('un', '.not.', self.expr(3))
        elif t in ('-', '+'):
            self.next()
            e = self.expr(7)     # unary minus binds like addition: -a*b = -(a*b)
            left = e if t == '+' else ('un', '-', e)
        else:
            left = self.primary()
        while True:
            op = self.peek()
            if op not in BINP or BINP[op] < minp:
                return left
            p = BINP[op]
            self.next()
            right = self.expr(p if op == '**' else p + 1)
            left = ('bin', ALIAS.get(op, op), left, right)

    def primary(self):
        k, v = self.kind(), self.next()
        if k == 'int':
            return ('int', int(v.split('_')[0]))
        if k == 'real':
            v = v.split('_')[0].replace('d', 'e')
            return ('real', Fraction(v if not v.endswith('.') else v + '0'))
        if k == 'dot':
            if v in ('.true.', '.false.'):
                return ('log', v == '.true.')
            raise FrontendError('line %d: operator %s' % (self.line, v))
        if k == 'str':
            return ('str', v[1:-1])
        if v == '(':
            e = self.expr()
            self.expect(')')
            return e
        if v == '(/':
            es = []
            while True:
                es.append(self.expr())
                if not self.accept(','):
                    break
            self.expect('/)')
            return ('arr', es)
        if k == 'name':
            if self.peek() == '(':
                self.next()
                return ('ref', v, self.args())
            return ('name', v)
        raise FrontendError('line %d: unexpected %r' % (self.line, v))

    def args(self):
        out = []
        if self.accept(')'):
            return out
        while True:
            if self.kind() == 'name' and self.peek(1) == '=':
                n = self.next()
                self.next()
                out.append(('kw', n, self.expr()))
            else:
                lo = None
                if self.peek() != ':':
                    lo = self.expr()
                if self.accept(':'):
                    hi = None
                    if self.peek() not in (',', ')', ':'):
                        hi = self.expr()
                    st = None
                    if self.accept(':'):
                        st = self.expr()
                    out.append(('slice', lo, hi, st))
                else:
                    out.append(lo)
            if self.accept(')'):
                return out
            self.expect(',')


def logical_lines(text):
    """(line number, text) with comments stripped, continuations joined, ';' split"""
    out, buf, start = [], '', None
    for no, raw in enumerate(text.split('\n'), 1):
        s, q = '', None
        for ch in raw:
            if q:
                s += ch
                if ch == q:
                    q = None
            elif ch in '\'"':
                q = ch
                s += ch
            elif ch == '!':
                break
            else:
                s += ch
        s = s.strip()
        if not s:
            continue
        if s.startswith('#'):
            raise FrontendError('line %d: preprocessor directive' % no)
        if s.startswith('&'):
            s = s[1:].strip()
        if start is None:
            start = no
        if s.endswith('&'):
            buf += s[:-1] + ' '
            continue
        buf += s
        for part in split_semi(buf):
            if part.strip():
                out.append((start, lower(part.strip())))
        buf, start = '', None
    if buf:
        raise FrontendError('dangling continuation')
    return out


def lower(s):
    return ''.join(p if i % 2 else p.lower() for i, p in enumerate(re.split(r"('[^']*'|\"[^\"]*\")", s)))


def split_semi(s):
    return [p for p in re.split(r""";(?=(?:[^'"]|'[^']*'|"[^"]*")*$)""", s)]


def parse(text):
    """{module: {unit name: Unit}}"""
    L = logical_lines(text)
    pos = 0
    mods = {}
    while pos < len(L):
        no, s = L[pos]
        m = re.match(r'module\s+(\w+)$', s)
        if not m:
            raise FrontendError('line %d: expected a module, got %r' % (no, s))
        mod = m.group(1)
        pos += 1
        units = {}
        while L[pos][1] != 'contains':
            if not re.match(r'(implicit none|private|public|save)$', L[pos][1]):
                raise FrontendError('line %d: module-level statement %r' % L[pos])
            pos += 1
        pos += 1
        while not re.match(r'end\s*module', L[pos][1]):
            u, pos = parse_unit(L, pos)
            u.module = mod
            units[u.name] = u
        pos += 1
        mods[mod] = units
    return mods


def parse_unit(L, pos):
    no, s = L[pos]
    m = re.match(r'(?:(?:pure|elemental|recursive)\s+)*(subroutine|function)\s+(\w+)\s*(?:\(([^)]*)\))?\s*'
                 r'(?:result\s*\(\s*(\w+)\s*\))?$', s)
    if not m:
        raise FrontendError('line %d: expected a subprogram, got %r' % (no, s))
    kind, name = m.group(1), m.group(2)
    args = [a.strip() for a in (m.group(3) or '').split(',') if a.strip()]
    u = Unit(kind, name, args, (m.group(4) or name) if kind == 'function' else None, no)
    pos += 1
    # specification part
    while True:
        no, s = L[pos]
        if s == 'implicit none':
            pos += 1
            continue
        m = re.match(r'use\s+(?:::\s*)?(\w+)\s*(?:,\s*(.*))?$', s)
        if m:
            ren, only = {}, None
            rest = m.group(2)
            if rest:
                if rest.startswith('only'):
                    only = []
                    rest = rest.split(':', 1)[1]
                for r in rest.split(','):
                    if '=>' in r:
                        a, b = [x.strip() for x in r.split('=>')]
                        ren[a] = b
                        if only is not None:
                            only.append(b)
                    elif r.strip():
                        if only is None:
                            raise FrontendError('line %d: %r' % (no, s))
                        only.append(r.strip())
            u.uses.append((m.group(1), ren, only))
            pos += 1
            continue
        m = re.match(r'(integer|real|logical)\b', s)
        if m and is_decl(s):
            parse_decl(u, s, no)
            pos += 1
            continue
        break
    u.body, pos = parse_block(L, pos, ('end', 'contains'))
    if L[pos][1] == 'contains':
        pos += 1
        while not is_end(L[pos][1], ('subroutine', 'function')):
            c, pos = parse_unit(L, pos)
            c.parent = u
            u.contains[c.name] = c
    if not is_end(L[pos][1], ('subroutine', 'function')):
        raise FrontendError('line %d: expected end of %s, got %r' % (L[pos][0], name, L[pos][1]))
    return u, pos + 1


def is_end(s, kinds):
    return bool(re.match(r'end\s*(%s)?(\s+\w+)?$' % '|'.join(kinds), s)) and \
        not re.match(r'end\s*(do|if|select|forall|where)\b', s)


def is_decl(s):
    """integer(kind=4) i, j   |  real (kind=8), intent(in) :: x   but not  real = 3"""
    return not re.match(r'(integer|real|logical)\s*=', s)


def parse_decl(u, s, no):
    m = re.match(r'(integer|real|logical)\s*(\(\s*(?:kind\s*=\s*)?\w+\s*\))?\s*', s)
    typ = {'integer': 'int', 'real': 'real', 'logical': 'log'}[m.group(1)]
    rest = s[m.end():]
    intent, optional, param, dim = None, False, False, None
    if '::' in rest:
        attrs, rest = rest.split('::', 1)
        for a in re.split(r',(?![^(]*\))', attrs):
            a = a.strip()
            if not a:
                continue
            mm = re.match(r'intent\s*\(\s*(in|out|inout|in\s+out)\s*\)$', a)
            if mm:
                intent = mm.group(1).replace(' ', '')
            elif a == 'optional':
                optional = True
            elif a == 'parameter':
                param = True
            elif a.startswith('dimension'):
                dim = a[len('dimension'):].strip()
            else:
                raise FrontendError('line %d: attribute %r' % (no, a))
    elif rest.startswith(','):
        raise FrontendError('line %d: declaration %r' % (no, s))
    p = P(tokenize(rest, no), no)
    while not p.end():
        name = p.next()
        dims = None
        if p.accept('('):
            dims = p.args()
        elif dim:
            q = P(tokenize(dim, no), no)
            q.expect('(')
            dims = q.args()
        val = None
        if p.accept('='):
            val = p.expr()
            if not param:
                raise FrontendError('line %d: initialised (saved) local %s' % (no, name))
        if dims is not None:
            dd = []
            for d in dims:
                if d[0] == 'slice':
                    if d[1] is None or d[2] is None:
                        raise FrontendError('line %d: assumed or deferred shape of %s' % (no, name))
                    dd.append((d[1], d[2]))
                else:
                    dd.append((('int', 1), d))
            dims = dd
        u.decls[name] = Decl(name, typ, dims, intent, optional, val)
        if not p.end():
            p.expect(',')


def parse_block(L, pos, stops):
    out = []
    while True:
        no, s = L[pos]
        if stop(s, stops):
            return out, pos
        st, pos = parse_stmt(L, pos)
        if st is not None:
            out.append(st)


def stop(s, stops):
    for k in stops:
        if k == 'end' and is_end(s, ('subroutine', 'function')):
            return True
        if k == 'contains' and s == 'contains':
            return True
        if k == 'enddo' and re.match(r'end\s*do\b', s):
            return True
        if k == 'endif' and re.match(r'end\s*if\b', s):
            return True
        if k == 'else' and re.match(r'else\b|else\s*if\b', s):
            return True
        if k == 'endforall' and re.match(r'end\s*forall\b', s):
            return True
        if k == 'case' and re.match(r'case\b', s):
            return True
        if k == 'endselect' and re.match(r'end\s*select\b', s):
            return True
    return False


def match_paren(s, i):
    d = 0
    for k in range(i, len(s)):
        if s[k] == '(':
            d += 1
        elif s[k] == ')':
            d -= 1
            if d == 0:
                return k
    raise FrontendError('unbalanced parentheses in %r' % s)


def ex(s, no):
    p = P(tokenize(s, no), no)
    e = p.expr()
    if not p.end():
        raise FrontendError('line %d: trailing text in %r' % (no, s))
    return e


def simple(s, no):
    """a simple (one-line) statement"""
    if s in ('return', 'exit', 'cycle', 'continue'):
        return S(s, no)
    if re.match(r'(exit|cycle)\s+\w+$', s):
        raise FrontendError('line %d: named %s' % (no, s))
    if re.match(r'(error\s+)?stop\b(?!\s*=)', s):
        return S('stop', no)
    m = re.match(r'call\s+(\w+)\s*(\(.*\))?$', s)
    if m:
        args = []
        if m.group(2):
            p = P(tokenize(m.group(2), no), no)
            p.expect('(')
            args = p.args()
            if not p.end():
                raise FrontendError('line %d: %r' % (no, s))
        return S('call', no, name=m.group(1), args=args)
    p = P(tokenize(s, no), no)
    if p.kind() != 'name':
        raise FrontendError('line %d: statement %r' % (no, s))
    lhs = p.primary()
    if lhs[0] not in ('name', 'ref'):
        raise FrontendError('line %d: statement %r' % (no, s))
    p.expect('=')
    rhs = p.expr()
    if not p.end():
        raise FrontendError('line %d: trailing text in %r' % (no, s))
    return S('assign', no, lhs=lhs, rhs=rhs)


def parse_stmt(L, pos):
    no, s = L[pos]
    m = re.match(r'(?:\w+\s*:\s*)?do\b', s)
    if m and not re.match(r'do\s*=', s):
        if ':' in s.split('do')[0]:
            raise FrontendError('line %d: named loop' % no)
        r = s[2:].strip()
        if not r:
            body, pos = parse_block(L, pos + 1, ('enddo',))
            return S('while', no, cond=('log', True), body=body), pos + 1
        mm = re.match(r'while\s*(\(.*\))$', r)
        if mm:
            body, pos = parse_block(L, pos + 1, ('enddo',))
            return S('while', no, cond=ex(mm.group(1), no), body=body), pos + 1
        mm = re.match(r'concurrent\s*(\(.*\))$', r)
        if mm:
            vs = forall_head(mm.group(1), no)
            body, pos = parse_block(L, pos + 1, ('enddo',))
            return S('forall', no, vars=vs[0], mask=vs[1], body=body), pos + 1
        mm = re.match(r'(\w+)\s*=\s*(.*)$', r)
        if not mm:
            raise FrontendError('line %d: %r' % (no, s))
        p = P(tokenize(mm.group(2), no), no)
        lo = p.expr()
        p.expect(',')
        hi = p.expr()
        step = ('int', 1)
        if p.accept(','):
            step = p.expr()
        if not p.end():
            raise FrontendError('line %d: %r' % (no, s))
        body, pos = parse_block(L, pos + 1, ('enddo',))
        return S('do', no, var=mm.group(1), lo=lo, hi=hi, step=step, body=body), pos + 1
    if re.match(r'if\s*\(', s):
        i = s.index('(')
        j = match_paren(s, i)
        cond = ex(s[i:j + 1], no)
        rest = s[j + 1:].strip()
        if rest == 'then':
            arms, els = [], None
            body, pos = parse_block(L, pos + 1, ('else', 'endif'))
            arms.append((cond, body))
            while True:
                no2, t = L[pos]
                if re.match(r'end\s*if\b', t):
                    return S('if', no, arms=arms, els=els or []), pos + 1
                mm = re.match(r'else\s*if\s*(\(.*\))\s*then$', t)
                if mm:
                    body, pos = parse_block(L, pos + 1, ('else', 'endif'))
                    arms.append((ex(mm.group(1), no2), body))
                elif t == 'else':
                    els, pos = parse_block(L, pos + 1, ('endif',))
                else:
                    raise FrontendError('line %d: %r' % (no2, t))
        return S('if', no, arms=[(cond, [simple(rest, no)])], els=[]), pos + 1
    if re.match(r'forall\s*\(', s):
        i = s.index('(')
        j = match_paren(s, i)
        vs = forall_head(s[i:j + 1], no)
        rest = s[j + 1:].strip()
        if rest:
            return S('forall', no, vars=vs[0], mask=vs[1], body=[simple(rest, no)]), pos + 1
        body, pos = parse_block(L, pos + 1, ('endforall',))
        return S('forall', no, vars=vs[0], mask=vs[1], body=body), pos + 1
    m = re.match(r'select\s*case\s*(\(.*\))$', s)
    if m:
        sel = ex(m.group(1), no)
        pos += 1
        cases, default = [], None
        while not re.match(r'end\s*select', L[pos][1]):
            no2, t = L[pos]
            mm = re.match(r'case\s*default$', t)
            if mm:
                default, pos = parse_block(L, pos + 1, ('case', 'endselect'))
                continue
            mm = re.match(r'case\s*(\(.*\))$', t)
            if not mm:
                raise FrontendError('line %d: %r' % (no2, t))
            p = P(tokenize(mm.group(1), no2), no2)
            p.expect('(')
            vals = p.args()
            body, pos = parse_block(L, pos + 1, ('case', 'endselect'))
            cases.append((vals, body))
        return S('select', no, sel=sel, cases=cases, default=default or []), pos + 1
    return simple(s, no), pos + 1


def forall_head(s, no):
    p = P(tokenize(s, no), no)
    p.expect('(')
    vs, mask = [], None
    while True:
        if p.kind() == 'name' and p.peek(1) == '=':
            v = p.next()
            p.next()
            lo = p.expr()
            p.expect(':')
            hi = p.expr()
            st = None
            if p.accept(':'):
                st = p.expr()
                if st != ('int', 1):
                    raise FrontendError('line %d: forall stride' % no)
            vs.append((v, lo, hi))
        else:
            mask = p.expr()
        if p.accept(')'):
            break
        p.expect(',')
    if not p.end():
        raise FrontendError('line %d: %r' % (no, s))
    return vs, mask


if __name__ == '__main__':
    import sys
    m = parse(open(sys.argv[1] if len(sys.argv) > 1 else '/repo/igakit/igalib.f90').read())
    for k, v in m.items():
        print(k, ' '.join(v))

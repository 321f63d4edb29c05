"""Parser for the subset of textual LLVM IR (clang 18, opaque pointers) that
/repo's sources compile to.  Nothing here knows anything about the project:
it turns a .ll file into Module/Function/Block/Instr objects that the two
back ends (IR -> C for CBMC, IR -> SMT for z3/cvc5) consume."""
import re, struct

TOK = re.compile(r'''
   (?P<ws>[ \t]+)
 | (?P<cmt>;[^\n]*)
 | (?P<cstr>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<qid>[@%\$]"(?:[^"])*")
 | (?P<id>[@%\$][-a-zA-Z$._0-9]+)
 | (?P<meta>!"(?:[^"])*"|!(?:[-a-zA-Z$._0-9]*))
 | (?P<attr>\#[0-9]+)
 | (?P<str>"(?:[^"])*")
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?[0-9]+(?:\.[0-9]*(?:[eE][-+]?[0-9]+)?)?(?![a-zA-Z_]))
 | (?P<word>[a-zA-Z_.][-a-zA-Z_0-9.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[][(){}<>=,*:|])
''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        if s.startswith('...', i):
            out.append(('dots', '...')); i += 3; continue
        m = TOK.match(s, i)
        if not m:
            raise ParseError('token at: ' + s[i:i + 60])
        k = m.lastgroup
        i = m.end()
        if k in ('ws',):
            continue
        if k == 'cmt':
            break
        out.append((k, m.group()))
    return out


def unq(x):
    x = x[1:]
    if x.startswith('"'):
        x = x[1:-1]
    return x


def cstr_bytes(t):
    t = t[2:-1]
    out = bytearray()
    i = 0
    while i < len(t):
        if t[i] == '\\':
            if t[i + 1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(t[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(t[i])); i += 1
    return bytes(out)


VOID = ('void',)
PTR = ('ptr',)


def INT(n):
    return ('int', n)


DBL = ('fp', 'double')

PARAM_ATTRS = {'noundef', 'signext', 'zeroext', 'nonnull', 'nocapture', 'readonly', 'writeonly',
               'noalias', 'returned', 'inreg', 'immarg', 'readnone', 'nofree', 'nest', 'swiftself',
               'swifterror', 'allocptr', 'allocalign', 'dead_on_unwind', 'writable', 'noext'}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'range',
                   'initializes', 'captures', 'elementtype', 'inalloca', 'preallocated', 'byref', 'memory',
                   'nofpclass'}


class Instr:
    __slots__ = ('op', 'res', 'ty', 'ops', 'x', 'text')

    def __init__(self, op, res=None, ty=None, ops=None, **x):
        self.op, self.res, self.ty, self.ops, self.x = op, res, ty, ops or [], x

    def __repr__(self):
        return 'I(%s %s %s %s %s)' % (self.res, self.op, self.ty, self.ops, self.x)


class Block:
    def __init__(self, name):
        self.name, self.ins = name, []


class Function:
    def __init__(self, name):
        self.name = name
        self.blocks = []
        self.bmap = {}
        self.params = []        # [(type, localname)]
        self.ret = None
        self.vararg = False
        self.internal = False
        self.byval = {}


class Global:
    def __init__(self, name, ty, init, const, internal):
        self.name, self.ty, self.init, self.const, self.internal = name, ty, init, const, internal


class P:
    def __init__(self, toks, mod, text=''):
        self.t, self.i, self.mod, self.text = toks, 0, mod, text

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('eof', '')

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def acc(self, v):
        if self.peek()[1] == v and self.peek()[0] != 'cstr':
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            raise ParseError('expected %r got %r in %s' % (v, self.peek(), self.text))

    # ---- types
    def type(self):
        k, v = self.next()
        if k == 'word':
            if v == 'ptr':
                t = PTR
                if self.peek()[1] == 'addrspace':
                    self.next(); self.exp('('); self.next(); self.exp(')')
            elif re.fullmatch(r'i\d+', v):
                t = INT(int(v[1:]))
            elif v in ('double', 'float', 'x86_fp80', 'half', 'fp128'):
                t = ('fp', v)
            elif v == 'void':
                t = VOID
            elif v == 'label':
                t = ('label',)
            elif v == 'metadata':
                t = ('meta',)
            elif v == 'token':
                t = ('token',)
            elif v == 'opaque':
                t = ('opaque',)
            else:
                raise ParseError('type word %r in %s' % (v, self.text))
        elif v == '[':
            n = int(self.next()[1]); self.exp('x')
            e = self.type(); self.exp(']')
            t = ('arr', n, e)
        elif v == '{':
            t = ('struct', tuple(self.typelist('}')), False)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next()
                t = ('struct', tuple(self.typelist('}')), True)
                self.exp('>')
            else:
                n = int(self.next()[1]); self.exp('x')
                e = self.type(); self.exp('>')
                t = ('vec', n, e)
        elif k in ('id', 'qid') and v[0] == '%':
            t = ('named', unq(v))
        else:
            raise ParseError('type %r in %s' % (v, self.text))
        # function type suffix
        while self.peek()[1] == '(' and getattr(self, 'functype_ok', False):
            self.next()
            args, va = [], False
            while not self.acc(')'):
                if self.peek()[0] == 'dots':
                    self.next(); va = True
                else:
                    args.append(self.type())
                self.acc(',')
            t = ('func', t, tuple(args), va)
        return t

    def typelist(self, end):
        out = []
        while not self.acc(end):
            out.append(self.type())
            self.acc(',')
        return out

    # ---- values
    def value(self, ty):
        k, v = self.next()
        if k in ('id', 'qid'):
            if v[0] == '%':
                return ('local', unq(v))
            return ('global', unq(v))
        if k == 'num':
            if ty[0] == 'fp':
                return ('fp', float(v))
            return ('int', int(v))
        if k == 'hex':
            return ('fp', parse_hexfp(v, ty))
        if k == 'cstr':
            return ('str', cstr_bytes(v))
        if k == 'word':
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'true':
                return ('int', 1)
            if v == 'false':
                return ('int', 0)
            if v == 'getelementptr':
                while self.peek()[0] == 'word' and self.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    self.next()
                self.exp('(')
                st = self.type()
                ops = []
                while not self.acc(')'):
                    self.acc(',')
                    self.acc('inrange')
                    t = self.type()
                    ops.append((t, self.value(t)))
                return ('gep', st, ops)
            if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.exp('(')
                t = self.type()
                x = self.value(t)
                self.exp('to')
                t2 = self.type()
                self.exp(')')
                return ('cast', v, (t, x), t2)
            if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl'):
                while self.peek()[0] == 'word' and self.peek()[1] in ('nuw', 'nsw'):
                    self.next()
                self.exp('(')
                t = self.type(); a = self.value(t); self.exp(',')
                t2 = self.type(); b = self.value(t2); self.exp(')')
                return ('cbin', v, t, a, b)
        if v == '[':
            return ('arr', self.valuelist(']'))
        if v == '{':
            return ('structv', self.valuelist('}'))
        if v == '<':
            if self.acc('{'):
                r = ('structv', self.valuelist('}'))
                self.exp('>')
                return r
            return ('vecv', self.valuelist('>'))
        raise ParseError('value %r in %s' % ((k, v), self.text))

    def valuelist(self, end):
        out = []
        while not self.acc(end):
            t = self.type()
            out.append((t, self.value(t)))
            self.acc(',')
        return out

    def tv(self):
        t = self.type()
        self.skip_pattrs()
        return (t, self.value(t))

    def skip_pattrs(self):
        info = {}
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTRS:
                self.next()
                info[v] = True
            elif k == 'word' and v in PARAM_ATTRS_ARG:
                self.next()
                if self.peek()[1] == '(':
                    j = self.i + 1
                    if v in ('byval', 'sret', 'elementtype'):
                        self.next()
                        info[v] = self.type()
                        self.exp(')')
                    else:
                        d = 0
                        while True:
                            x = self.next()[1]
                            if x == '(':
                                d += 1
                            elif x == ')':
                                d -= 1
                                if d == 0:
                                    break
                elif self.peek()[0] == 'num':
                    self.next()
            elif k == 'str':
                self.next()
                if self.acc('='):
                    self.next()
            else:
                return info


def parse_hexfp(v, ty):
    if v.startswith('0xK'):
        n = int(v[3:], 16)
        mant = n & ((1 << 64) - 1)
        se = n >> 64
        sign = -1 if se & 0x8000 else 1
        e = se & 0x7fff
        if e == 0x7fff:
            return float('inf') * sign if (mant << 1) & ((1 << 64) - 1) == 0 else float('nan')
        if e == 0 and mant == 0:
            return 0.0 * sign
        from fractions import Fraction
        fr = Fraction(mant) * (Fraction(2) ** (e - 16383 - 63)) * sign
        return fr          # exact
    return struct.unpack('>d', int(v[2:], 16).to_bytes(8, 'big'))[0]


CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp',
         'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}
BINOPS = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
FLAGS = {'nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc',
         'inbounds', 'nusw', 'disjoint', 'nneg', 'samesign'}


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.funcs = {}      # defined
        self.decls = {}      # declared: name -> (ret, [types], vararg)

    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    # -- data layout (x86-64)
    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'int':
            b = (t[1] + 7) // 8
            return 1 if b <= 1 else 2 if b <= 2 else 4 if b <= 4 else 8
        if k == 'fp':
            return {'double': 8, 'float': 4, 'x86_fp80': 16}[t[1]]
        if k == 'ptr':
            return 8
        if k == 'arr':
            return self.align(t[2])
        if k == 'struct':
            if t[2]:
                return 1
            return max([self.align(x) for x in t[1]] or [1])
        raise ParseError('align ' + str(t))

    def size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'int':
            b = (t[1] + 7) // 8
            a = self.align(t)
            return (b + a - 1) // a * a
        if k == 'fp':
            return {'double': 8, 'float': 4, 'x86_fp80': 16}[t[1]]
        if k == 'ptr':
            return 8
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k == 'struct':
            off = 0
            for x in t[1]:
                a = 1 if t[2] else self.align(x)
                off = (off + a - 1) // a * a + self.size(x)
            a = self.align(t)
            return (off + a - 1) // a * a
        raise ParseError('size ' + str(t))

    def field_offset(self, t, n):
        t = self.resolve(t)
        off = 0
        for j, x in enumerate(t[1]):
            a = 1 if t[2] else self.align(x)
            off = (off + a - 1) // a * a
            if j == n:
                return off
            off += self.size(x)
        raise ParseError('field')


def parse_instr(line, mod):
    toks = tokenize(line)
    p = P(toks, mod, line)
    res = None
    if p.peek()[0] in ('id', 'qid') and p.peek(1)[1] == '=':
        res = unq(p.next()[1])
        p.next()
    op = p.next()[1]
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()[1]
    fl = set()

    def flags():
        while p.peek()[0] == 'word' and p.peek()[1] in FLAGS:
            fl.add(p.next()[1])

    if op in BINOPS:
        flags()
        t = p.type()
        a = p.value(t); p.exp(','); b = p.value(t)
        return Instr(op, res, t, [a, b], flags=fl)
    if op == 'fneg':
        flags()
        t = p.type()
        return Instr(op, res, t, [p.value(t)])
    if op in ('icmp', 'fcmp'):
        flags()
        pred = p.next()[1]
        t = p.type()
        a = p.value(t); p.exp(','); b = p.value(t)
        return Instr(op, res, t, [a, b], pred=pred)
    if op in CASTS:
        flags()
        t = p.type()
        a = p.value(t)
        p.exp('to')
        return Instr(op, res, p.type(), [a], src=t)
    if op == 'freeze':
        t = p.type()
        return Instr(op, res, t, [p.value(t)])
    if op == 'alloca':
        t = p.type()
        n = None
        if p.acc(','):
            if p.peek()[1] != 'align':
                nt = p.type()
                n = (nt, p.value(nt))
        return Instr(op, res, t, [], n=n)
    if op == 'load':
        p.acc('volatile')
        t = p.type(); p.exp(',')
        p.type()
        return Instr(op, res, t, [p.value(PTR)])
    if op == 'store':
        p.acc('volatile')
        t = p.type()
        v = p.value(t); p.exp(','); p.type()
        return Instr(op, None, t, [v, p.value(PTR)])
    if op == 'getelementptr':
        flags()
        st = p.type()
        ops = []
        while p.acc(','):
            if p.peek()[0] == 'meta':
                break
            t = p.type()
            ops.append((t, p.value(t)))
        return Instr(op, res, st, ops)
    if op == 'br':
        t = p.type()
        if t[0] == 'label':
            return Instr('br', None, None, [unq(p.next()[1])])
        c = p.value(t)
        p.exp(','); p.type(); a = unq(p.next()[1])
        p.exp(','); p.type(); b = unq(p.next()[1])
        return Instr('cbr', None, t, [c, a, b])
    if op == 'switch':
        t = p.type()
        v = p.value(t)
        p.exp(','); p.type(); d = unq(p.next()[1])
        p.exp('[')
        cases = []
        while not p.acc(']'):
            ct = p.type(); cv = p.value(ct)
            p.exp(','); p.type()
            cases.append((cv[1], unq(p.next()[1])))
        return Instr('switch', None, t, [v], default=d, cases=cases)
    if op == 'ret':
        t = p.type()
        if t == VOID:
            return Instr('ret', None, VOID, [])
        return Instr('ret', None, t, [p.value(t)])
    if op == 'unreachable':
        return Instr('unreachable')
    if op == 'phi':
        flags()
        t = p.type()
        inc = []
        while True:
            p.exp('[')
            v = p.value(t); p.exp(','); b = unq(p.next()[1]); p.exp(']')
            inc.append((v, b))
            if not p.acc(','):
                break
            if p.peek()[0] == 'meta':
                break
        return Instr('phi', res, t, [], inc=inc)
    if op == 'select':
        flags()
        ct = p.type(); c = p.value(ct); p.exp(',')
        t = p.type(); a = p.value(t); p.exp(',')
        p.type(); b = p.value(t)
        return Instr('select', res, t, [c, a, b], ct=ct)
    if op == 'call':
        flags()
        while p.peek()[0] == 'word' and p.peek()[1] in ('fastcc', 'ccc', 'coldcc'):
            p.next()
        p.skip_pattrs()
        p.functype_ok = True
        t = p.type()
        p.functype_ok = False
        ft = None
        if t[0] == 'func':
            ft = t
            t = t[1]
        if p.peek() == ('word', 'asm'):
            raise ParseError('asm')
        callee = p.value(PTR)
        p.exp('(')
        args = []
        while not p.acc(')'):
            at = p.type()
            if at == ('meta',):
                # skip metadata operand
                while p.peek()[1] not in (',', ')'):
                    p.next()
                p.acc(',')
                continue
            info = p.skip_pattrs()
            args.append((at, p.value(at)))
            p.acc(',')
        return Instr('call', res, t, args, callee=callee, ft=ft)
    if op == 'extractvalue':
        t = p.type(); v = p.value(t)
        idx = []
        while p.acc(','):
            if p.peek()[0] == 'meta':
                break
            idx.append(int(p.next()[1]))
        return Instr(op, res, t, [v], idx=idx)
    if op == 'insertvalue':
        t = p.type(); v = p.value(t); p.exp(',')
        t2 = p.type(); v2 = p.value(t2)
        idx = []
        while p.acc(','):
            if p.peek()[0] == 'meta':
                break
            idx.append(int(p.next()[1]))
        return Instr(op, res, t, [v, v2], idx=idx, t2=t2)
    raise ParseError('instr %s' % line)


def parse_module(text):
    mod = Module()
    cur = None
    blk = None
    lines = text.split('\n')
    i = 0
    while i < len(lines):
        ln = lines[i]
        i += 1
        if cur is None:
            if ln.startswith('%') and ' = type ' in ln:
                nm, rest = ln.split(' = type ', 1)
                mod.types[unq(nm.strip())] = P(tokenize(rest), mod, ln).type()
            elif ln.startswith('@'):
                parse_global(ln, mod)
            elif ln.startswith('declare '):
                parse_header(ln, mod, False)
            elif ln.startswith('define '):
                cur = parse_header(ln, mod, True)
                # entry block label: implicit number = count of unnamed params
                blk = None
        else:
            s = ln.strip()
            if s == '}':
                mod.funcs[cur.name] = cur
                cur = None
                continue
            if not s or s.startswith(';'):
                continue
            m = re.match(r'^("(?:[^"])*"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                nm = m.group(1)
                if nm.startswith('"'):
                    nm = nm[1:-1]
                blk = Block(nm)
                cur.blocks.append(blk); cur.bmap[nm] = blk
                continue
            if blk is None or not cur.blocks:
                nm = cur.entry_name
                blk = Block(nm)
                cur.blocks.append(blk); cur.bmap[nm] = blk
            if s.startswith('switch ') and not s.rstrip().endswith(']'):
                while ']' not in lines[i]:
                    s += ' ' + lines[i].strip()
                    i += 1
                s += ' ' + lines[i].strip()
                i += 1
            # drop trailing metadata
            s2 = re.sub(r', ![a-zA-Z_.]+ ![0-9]+', '', s)
            blk.ins.append(parse_instr(s2, mod))
    return mod


LINK = {'private', 'internal', 'dso_local', 'external', 'linkonce_odr', 'weak', 'common', 'linkonce',
        'weak_odr', 'unnamed_addr', 'local_unnamed_addr', 'hidden', 'protected', 'available_externally',
        'dso_preemptable', 'extern_weak', 'appending', 'thread_local', 'constant', 'global', 'comdat', 'default'}


def parse_global(ln, mod):
    toks = tokenize(ln)
    p = P(toks, mod, ln)
    name = unq(p.next()[1])
    p.exp('=')
    words = []
    while p.peek()[0] == 'word' and p.peek()[1] in LINK:
        words.append(p.next()[1])
        if words[-1] == 'thread_local' and p.peek()[1] == '(':
            while p.next()[1] != ')':
                pass
    if 'constant' not in words and 'global' not in words:
        return
    ty = p.type()
    init = None
    if 'external' not in words and 'extern_weak' not in words:
        init = p.value(ty)
    if name.startswith('llvm.'):
        return
    mod.globals[name] = Global(name, ty, init, 'constant' in words,
                               'private' in words or 'internal' in words)


def parse_header(ln, mod, is_def):
    toks = tokenize(ln)
    p = P(toks, mod, ln)
    p.next()
    internal = False
    while p.peek()[0] == 'word' and p.peek()[1] in LINK:
        if p.next()[1] in ('internal', 'private'):
            internal = True
    while p.peek()[0] == 'word' and p.peek()[1] in ('fastcc', 'ccc', 'coldcc'):
        p.next()
    p.skip_pattrs()
    ret = p.type()
    name = unq(p.next()[1])
    p.exp('(')
    params = []
    va = False
    n = 0
    byval = {}
    while not p.acc(')'):
        if p.peek()[0] == 'dots':
            p.next(); va = True
            continue
        t = p.type()
        info = p.skip_pattrs()
        nm = None
        if p.peek()[0] in ('id', 'qid'):
            nm = unq(p.next()[1])
        else:
            nm = str(n)
        if 'byval' in info:
            byval[nm] = info['byval']
        n += 1
        params.append((t, nm))
        p.acc(',')
    if not is_def:
        mod.decls[name] = (ret, [t for t, _ in params], va)
        return None
    f = Function(name)
    f.ret, f.params, f.vararg, f.internal, f.byval = ret, params, va, internal, byval
    # entry block's implicit number
    unn = [int(nm) for _, nm in params if nm.isdigit()]
    f.entry_name = str(max(unn) + 1 if unn else 0)
    return f

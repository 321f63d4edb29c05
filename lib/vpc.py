"""LLVM IR -> C (for CBMC).  Only functions reachable from the harness entry
are emitted.  Control flow becomes gotos, phis become edge copies, pointers
are char *, GEPs keep their source element types.  External functions are
mapped to models in models/libc_model.c (prefix vpl_)."""
import re, math
from fractions import Fraction
import vpir
from vpir import PTR

INTT = {1: 'unsigned char', 8: 'char', 16: 'short', 32: 'int', 64: 'long'}
UINTT = {1: 'unsigned char', 8: 'unsigned char', 16: 'unsigned short', 32: 'unsigned int', 64: 'unsigned long'}

NOOP = ('llvm.lifetime', 'llvm.dbg', 'llvm.va_end', 'llvm.va_copy', 'llvm.assume', 'llvm.donothing',
        'llvm.stacksave', 'llvm.stackrestore', 'llvm.experimental')


class TransError(Exception):
    pass


def san(n):
    return re.sub(r'[^A-Za-z0-9_]', '_', n)


class CGen:
    def __init__(self, mod, models, entry, opts=None):
        self.mod, self.models, self.entry = mod, models, entry
        self.o = opts or {}
        self.needed_f, self.needed_g = [], []
        self.externs = set()
        self.typedefs = {}
        self.out = []
        self.tid = {}
        self.asserts = {}
        self.unmodelled = set()

    # ---- types
    def cty(self, t):
        t0 = t
        if t[0] == 'named':
            if t[1].endswith('__va_list_tag'):
                return 'struct vp_valist'
            return 'struct S_' + san(t[1])
        k = t[0]
        if k == 'int':
            n = t[1]
            if n in INTT:
                return INTT[n]
            for b in (8, 16, 32, 64):
                if n <= b:
                    return INTT[b]
            raise TransError('int width %d' % n)
        if k == 'fp':
            return {'double': 'double', 'float': 'float', 'x86_fp80': 'long double'}[t[1]]
        if k == 'ptr':
            return 'char *'
        if k == 'void':
            return 'void'
        if k in ('arr', 'struct'):
            key = repr(t)
            if key not in self.tid:
                nm = 'T_%d' % len(self.tid)
                self.tid[key] = nm
                self.deftype(nm, t)
            return ('struct ' if k == 'struct' else '') + self.tid[key]
        raise TransError('type %r' % (t,))

    def deftype(self, nm, t):
        if t[0] == 'arr':
            e = self.cty(t[2])
            self.typedefs[nm] = 'typedef %s %s[%d];' % (e, nm, max(t[1], 1))
        else:
            fs = ' '.join('%s f%d;' % (self.cty(x), i) for i, x in enumerate(t[1]))
            pk = '__attribute__((packed))' if t[2] else ''
            self.typedefs[nm] = 'struct %s { %s }%s;' % (nm, fs or 'char dummy;', pk)

    def named(self):
        # topologically emit named structs
        for n, t in self.mod.types.items():
            self.emit_named(n, t)

    def emit_named(self, n, t):
        key = 'N_' + n
        if key in self.typedefs or n.endswith('__va_list_tag'):
            return
        if t[0] == 'opaque':
            self.typedefs[key] = 'struct S_%s { char opaque[256]; };' % san(n)
            return
        self.typedefs[key] = None

        def dep(x):
            if x[0] == 'named':
                self.emit_named(x[1], self.mod.types[x[1]])
            elif x[0] == 'arr':
                dep(x[2])
            elif x[0] == 'struct':
                for y in x[1]:
                    dep(y)
        for x in t[1]:
            dep(x)
        fs = ' '.join('%s f%d;' % (self.cty(x), i) for i, x in enumerate(t[1]))
        pk = '__attribute__((packed))' if t[2] else ''
        s = 'struct S_%s { %s }%s;' % (san(n), fs or 'char dummy;', pk)
        del self.typedefs[key]
        self.typedefs[key] = s

    # ---- names
    def gname(self, n):
        return 'g_' + san(n)

    def fname(self, n):
        return 'f_' + san(n)

    def lname(self, n):
        return 'v_' + san(n)

    # ---- reachability
    def collect(self):
        work = [self.entry]
        seenf, seeng = set(), set()

        def val(v):
            k = v[0]
            if k == 'global':
                n = v[1]
                if n in self.mod.funcs:
                    if n not in seenf:
                        work.append(n)
                elif n in self.mod.globals:
                    if n not in seeng:
                        seeng.add(n)
                        g = self.mod.globals[n]
                        if g.init is not None:
                            val(g.init)
            elif k == 'gep':
                for _, x in v[2]:
                    val(x)
            elif k == 'cast':
                val(v[2][1])
            elif k in ('arr', 'structv'):
                for _, x in v[1]:
                    val(x)
        while work:
            n = work.pop()
            if n in seenf:
                continue
            if san(n) in self.o.get('override', ()):      # replaced by a model on purpose
                continue
            seenf.add(n)
            for b in self.mod.funcs[n].blocks:
                for i in b.ins:
                    for o in i.ops:
                        if isinstance(o, tuple) and o and isinstance(o[0], str):
                            val(o)
                        elif isinstance(o, tuple) and len(o) == 2 and isinstance(o[1], tuple):
                            val(o[1])
                    if i.op == 'call':
                        val(i.x['callee'])
                    if i.op == 'phi':
                        for v, _ in i.x['inc']:
                            val(v)
        self.needed_f = [n for n in self.mod.funcs if n in seenf]
        self.needed_g = [n for n in self.mod.globals if n in seeng]

    # ---- constants
    def fpc(self, v, ty):
        if isinstance(v, Fraction):
            f = float(v)
            if Fraction(f) != v and ty[1] == 'x86_fp80':
                n, d = v.numerator, v.denominator
                return '(%d.0L/%d.0L)' % (n, d)
            v = f
        if v != v:
            return '(0.0/0.0)'
        if v in (math.inf, -math.inf):
            return '(%s1.0/0.0)' % ('-' if v < 0 else '')
        s = float(v).hex()
        m = re.fullmatch(r'(-?)0x([01])\.([0-9a-f]+)p([+-]\d+)', s)
        r = repr(float(v))
        suffix = 'L' if ty[1] == 'x86_fp80' else ''
        if 'e' not in r and '.' not in r:
            r += '.0'
        return '(%s%s)' % (r, suffix)

    def const(self, ty, v, init=False):
        k = v[0]
        if k == 'int':
            rt = self.mod.resolve(ty)
            if rt == ('int', 1):
                return '1' if v[1] & 1 else '0'
            n = rt[1]
            x = v[1] & ((1 << n) - 1)
            if x >= 1 << (n - 1):
                x -= 1 << n
            if n == 64:
                return '(-9223372036854775807L - 1L)' if x == -(1 << 63) else '%dL' % x
            if x == -(1 << 31):
                return '(-2147483647 - 1)'
            return '(%d)' % x if x < 0 else '%d' % x
        if k == 'fp':
            return self.fpc(v[1], ty)
        if k == 'null':
            return '((char *)0)'
        if k == 'undef':
            rt = self.mod.resolve(ty)
            if rt[0] in ('arr', 'struct'):
                return '{0}'
            return '((char *)0)' if rt[0] == 'ptr' else '0'
        if k == 'zero':
            rt = self.mod.resolve(ty)
            if rt[0] in ('arr', 'struct'):
                return '{0}'
            return '((char *)0)' if rt[0] == 'ptr' else '0'
        if k == 'global':
            n = v[1]
            if n in self.mod.funcs:
                return '((char *)&%s)' % self.fname(n)
            if n in self.mod.globals:
                g = self.mod.globals[n]
                if g.init is None:
                    return self.extern_global(n, g)
                return '((char *)&%s)' % self.gname(n)
            self.externs.add(n)
            return '((char *)&vpl_%s)' % san(n)
        if k == 'gep':
            return self.gep(v[1], [(t, self.const(t, x), x) for t, x in v[2]])
        if k == 'str':
            return '{' + ','.join(str(b - 256 if b > 127 else b) for b in v[1]) + '}'
        if k in ('arr', 'structv'):
            return '{' + ','.join(self.const(t, x, True) for t, x in v[1]) + '}'
        if k == 'cast':
            if v[1] in ('bitcast', 'addrspacecast'):
                return self.const(v[2][0], v[2][1])
            if v[1] == 'ptrtoint':
                return '((long)%s)' % self.const(v[2][0], v[2][1])
        raise TransError('const %r' % (v,))

    def extern_global(self, n, g):
        self.externs.add(n)
        return '((char *)&vpl_%s)' % san(n)

    def val(self, ty, v):
        if v[0] == 'local':
            return self.lname(v[1])
        return self.const(ty, v)

    def gep(self, sty, ops):
        """ops: [(type, cexpr, rawvalue)]"""
        base = ops[0][1]
        t = sty
        idx = ops[1:]

        def lit(x):
            return x[2][1] if x[2][0] == 'int' else None
        # collapse: pointer to first element
        e = '((%s *)%s)' % (self.cty(t), base) if self.cty(t) != 'char' else '(%s)' % base
        if self.mod.resolve(t)[0] == 'int' and self.mod.resolve(t)[1] == 8:
            if lit(idx[0]) == 0 and len(idx) == 1:
                return base
        i0 = idx[0][1]
        if len(idx) == 1:
            return '((char *)(%s + %s))' % (e, i0)
        if lit(idx[0]) == 0:
            acc = '(*%s)' % e
        else:
            acc = '(*(%s + %s))' % (e, i0)
        for x in idx[1:]:
            t = self.mod.resolve(t)
            if t[0] == 'arr':
                t = t[2]
                acc = '%s[%s]' % (acc, x[1])
            elif t[0] == 'struct':
                n = x[2][1]
                t = t[1][n]
                acc = '%s.f%d' % (acc, n)
            else:
                raise TransError('gep')
        return '((char *)&%s)' % acc

    # ---- functions
    def proto(self, f):
        ps = ['%s %s' % (self.cty(t), self.lname(n)) for t, n in f.params]
        if f.vararg:
            ps.append('struct vp_va *vp_va_in')
        return '%s %s(%s)' % (self.cty(f.ret), self.fname(f.name), ', '.join(ps) or 'void')

    def emit_func(self, f):
        self.f = f
        self.decls = []
        self.body = []
        self.alloca_t = {}
        self.ntmp = 0
        lines = []
        pre = {}
        for b in f.blocks:
            for i in b.ins:
                if i.op == 'alloca':
                    self.alloca_t[i.res] = i.ty
        for bi, b in enumerate(f.blocks):
            self.cur = b
            lab = 'L_' + san(b.name)
            lines.append('%s: ;' % lab)
            for i in b.ins:
                self.L = lines
                self.emit(i)
        out = [self.proto(f), '{']
        out += ['   ' + d for d in self.decls]
        out += ['   ' + l for l in lines]
        out.append('}')
        return '\n'.join(out)

    def decl(self, ty, name):
        self.decls.append('%s %s;' % (self.cty(ty), name))

    def edge(self, target):
        """phi copies for edge cur->target, then goto"""
        blk = self.f.bmap[target]
        cps = []
        for i in blk.ins:
            if i.op != 'phi':
                break
            for v, b in i.x['inc']:
                if b == self.cur.name:
                    if v[0] != 'undef' and not (v[0] == 'local' and v[1] == i.res):
                        cps.append((i, self.val(i.ty, v), v))
                    break
            else:
                raise TransError('phi edge')
        s = ''
        dests = {i.res for i, _, _ in cps}
        conflict = any(v[0] == 'local' and v[1] in dests for _, _, v in cps)
        if conflict:
            tmps = []
            for i, e, v in cps:
                self.ntmp += 1
                t = 'phit_%d' % self.ntmp
                self.decl(i.ty, t)
                s += '%s = %s; ' % (t, e)
                tmps.append((i, t))
            for i, t in tmps:
                s += '%s = %s; ' % (self.lname(i.res), t)
        else:
            for i, e, v in cps:
                s += '%s = %s; ' % (self.lname(i.res), e)
        return s + 'goto L_%s;' % san(target)

    def lit_string(self, v):
        """python string for a constant string operand"""
        if v[0] == 'gep':
            v = v[2][0][1]
        if v[0] == 'global' and v[1] in self.mod.globals:
            g = self.mod.globals[v[1]]
            if g.init and g.init[0] == 'str':
                return g.init[1].split(b'\0')[0].decode('latin1')
            if g.init and g.init[0] == 'zero':
                return ''
        return None

    def setr(self, i, expr, ty=None):
        n = self.lname(i.res)
        self.decl(ty or i.ty, n)
        self.L.append('%s = %s;' % (n, expr))

    def emit(self, i):
        op = i.op
        L = self.L
        if op == 'phi':
            self.decl(i.ty, self.lname(i.res))
            return
        if op == 'alloca':
            nm = 'a_' + san(i.res)
            if i.x['n'] and not (i.x['n'][1][0] == 'int' and i.x['n'][1][1] == 1):
                self.decl(PTR, self.lname(i.res))
                L.append('%s = (char *)vpl_alloca((unsigned long)%s * sizeof(%s));' % (
                    self.lname(i.res), self.val(*i.x['n']), self.cty(i.ty)))
                return
            self.decl(i.ty, nm)
            self.decl(PTR, self.lname(i.res))
            L.append('%s = (char *)&%s;' % (self.lname(i.res), nm))
            return
        if op == 'load':
            v = i.ops[0]
            if v[0] == 'local' and self.alloca_t.get(v[1]) == i.ty:
                self.setr(i, 'a_' + san(v[1]))
            else:
                self.setr(i, '*(%s *)%s' % (self.cty(i.ty), self.val(PTR, v)))
            return
        if op == 'store':
            v, p = i.ops
            if v[0] == 'undef':
                return
            if p[0] == 'local' and self.alloca_t.get(p[1]) == i.ty:
                L.append('a_%s = %s;' % (san(p[1]), self.val(i.ty, v)))
            else:
                L.append('*(%s *)%s = %s;' % (self.cty(i.ty), self.val(PTR, p), self.val(i.ty, v)))
            return
        if op == 'getelementptr':
            self.setr(i, self.gep(i.ty, [(t, self.val(t, x), x) for t, x in i.ops]), PTR)
            return
        if op in vpir.BINOPS:
            self.binop(i)
            return
        if op == 'fneg':
            self.setr(i, '-(%s)' % self.val(i.ty, i.ops[0]))
            return
        if op == 'icmp':
            a, b = self.val(i.ty, i.ops[0]), self.val(i.ty, i.ops[1])
            p = i.x['pred']
            rt = self.mod.resolve(i.ty)
            c = {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[p if p in ('eq', 'ne') else p[1:]]
            if rt[0] == 'ptr':
                self.setr(i, '(%s %s %s)' % (a, c, b), ('int', 1))
            else:
                ct = UINTT[rt[1]] if p[0] == 'u' else INTT[rt[1]]
                if p in ('eq', 'ne'):
                    self.setr(i, '(%s %s %s)' % (a, c, b), ('int', 1))
                else:
                    self.setr(i, '((%s)%s %s (%s)%s)' % (ct, a, c, ct, b), ('int', 1))
            return
        if op == 'fcmp':
            a, b = self.val(i.ty, i.ops[0]), self.val(i.ty, i.ops[1])
            p = i.x['pred']
            c = {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}
            if p == 'true':
                e = '1'
            elif p == 'false':
                e = '0'
            elif p == 'ord':
                e = '(%s == %s && %s == %s)' % (a, a, b, b)
            elif p == 'uno':
                e = '!(%s == %s && %s == %s)' % (a, a, b, b)
            elif p == 'une':
                e = '(%s != %s)' % (a, b)
            elif p == 'one':
                e = '(%s < %s || %s > %s)' % (a, b, a, b)
            elif p == 'ueq':
                e = '!(%s < %s || %s > %s)' % (a, b, a, b)
            elif p[0] == 'o':
                e = '(%s %s %s)' % (a, c[p[1:]], b)
            else:
                inv = {'lt': '>=', 'le': '>', 'gt': '<=', 'ge': '<'}[p[1:]]
                e = '!(%s %s %s)' % (a, inv, b)
            self.setr(i, e, ('int', 1))
            return
        if op == 'select':
            c = self.val(('int', 1), i.ops[0])
            self.setr(i, '%s ? %s : %s' % (c, self.val(i.ty, i.ops[1]), self.val(i.ty, i.ops[2])))
            return
        if op == 'freeze':
            self.setr(i, self.val(i.ty, i.ops[0]))
            return
        if op in vpir.CASTS:
            self.cast(i)
            return
        if op == 'br':
            L.append(self.edge(i.ops[0]))
            return
        if op == 'cbr':
            c = self.val(('int', 1), i.ops[0])
            L.append('if( %s) { %s } else { %s }' % (c, self.edge(i.ops[1]), self.edge(i.ops[2])))
            return
        if op == 'switch':
            v = self.val(i.ty, i.ops[0])
            for cv, lab in i.x['cases']:
                L.append('if( %s == %s) { %s }' % (v, self.const(i.ty, ('int', cv)), self.edge(lab)))
            L.append(self.edge(i.x['default']))
            return
        if op == 'ret':
            L.append('return %s;' % (self.val(i.ty, i.ops[0]) if i.ops else ''))
            return
        if op == 'unreachable':
            L.append('__CPROVER_assume(0);')
            return
        if op == 'call':
            self.call(i)
            return
        raise TransError('op ' + op)

    def binop(self, i):
        op = i.op
        a, b = self.val(i.ty, i.ops[0]), self.val(i.ty, i.ops[1])
        if op[0] == 'f':
            if op == 'frem':
                self.setr(i, 'vpl_fmod(%s, %s)' % (a, b))
                self.externs.add('fmod')
                return
            self.setr(i, '%s %s %s' % (a, {'fadd': '+', 'fsub': '-', 'fmul': '*', 'fdiv': '/'}[op], b))
            return
        n = i.ty[1]
        s, u = INTT[n], UINTT[n]
        c = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^'}.get(op)
        if c:
            if n == 1:
                self.setr(i, '(%s)((%s %s %s) & 1)' % (s, a, c, b))
            elif op in ('and', 'or', 'xor'):
                self.setr(i, '(%s)(%s %s %s)' % (s, a, c, b))
            else:
                if 'nsw' in i.x['flags'] and self.o.get('check_nsw') and n >= 32:
                    self.L.append('__CPROVER_assert(!__CPROVER_overflow_%s(%s, %s), "signed overflow in %s");' % (
                        {'add': 'plus', 'sub': 'minus', 'mul': 'mult'}[op], a, b, san(self.f.name)))
                self.setr(i, '(%s)((%s)%s %s (%s)%s)' % (s, u, a, c, u, b))
            return
        if op in ('sdiv', 'srem'):
            self.L.append('__CPROVER_assert(%s != 0, "division by zero in %s");' % (b, san(self.f.name)))
            self.setr(i, '(%s)(%s %s %s)' % (s, a, '/' if op == 'sdiv' else '%', b))
            return
        if op in ('udiv', 'urem'):
            self.L.append('__CPROVER_assert(%s != 0, "division by zero in %s");' % (b, san(self.f.name)))
            self.setr(i, '(%s)((%s)%s %s (%s)%s)' % (s, u, a, '/' if op == 'udiv' else '%', u, b))
            return
        if op == 'shl':
            self.setr(i, '(%s)((%s)%s << %s)' % (s, u, a, b))
            return
        if op == 'lshr':
            self.setr(i, '(%s)((%s)%s >> %s)' % (s, u, a, b))
            return
        if op == 'ashr':
            self.setr(i, '(%s)(%s >> %s)' % (s, a, b))
            return
        raise TransError(op)

    def cast(self, i):
        a = self.val(i.x['src'], i.ops[0])
        op = i.op
        st, dt = self.mod.resolve(i.x['src']), self.mod.resolve(i.ty)
        if op == 'zext':
            e = '(%s)(%s)%s' % (self.cty(dt), UINTT[st[1]], a)
        elif op == 'sext':
            if st[1] == 1:
                e = '(%s)-(int)%s' % (self.cty(dt), a)
            else:
                e = '(%s)%s' % (self.cty(dt), a)
        elif op == 'trunc':
            e = '(unsigned char)(%s & 1)' % a if dt[1] == 1 else '(%s)%s' % (self.cty(dt), a)
        elif op in ('fptosi', 'sitofp', 'fpext', 'fptrunc'):
            e = '(%s)%s' % (self.cty(dt), a)
            if op == 'sitofp' and st[1] == 1:
                e = '(%s)-(int)%s' % (self.cty(dt), a)
        elif op == 'fptoui':
            e = '(%s)(%s)%s' % (self.cty(dt), UINTT[dt[1]], a)
        elif op == 'uitofp':
            e = '(%s)(%s)%s' % (self.cty(dt), UINTT[st[1]], a)
        elif op == 'ptrtoint':
            e = '(%s)%s' % (self.cty(dt), a)
        elif op == 'inttoptr':
            e = '(char *)%s' % a
        elif op in ('bitcast', 'addrspacecast'):
            e = a
        else:
            raise TransError(op)
        self.setr(i, e)

    def call(self, i):
        cal = i.x['callee']
        L = self.L
        if cal[0] != 'global':
            ft = '%s (*)(%s)' % (self.cty(i.ty), ', '.join(self.cty(t) for t, _ in i.ops) or 'void')
            e = '((%s)%s)(%s)' % (ft, self.val(PTR, cal), ', '.join(self.val(t, v) for t, v in i.ops))
            self.ret(i, e)
            return
        n = cal[1]
        if n.startswith(NOOP):
            return
        if n == 'vp_assert':
            msg = self.lit_string(i.ops[1][1]) or 'assertion'
            L.append('__CPROVER_assert(%s, "VP:%s");' % (self.val(*i.ops[0]), msg.replace('"', "'")))
            return
        if n == 'vp_reach':
            msg = self.lit_string(i.ops[0][1]) or 'reach'
            L.append('__CPROVER_assert(0, "REACH:%s");' % msg)
            return
        if n == 'vp_assume':
            L.append('__CPROVER_assume(%s);' % self.val(*i.ops[0]))
            return
        args = [self.val(t, v) for t, v in i.ops]
        if n == 'llvm.va_start':
            L.append('((struct vp_valist *)%s)->cur = vp_va_in;' % args[0])
            return
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove') or n in ('memcpy', 'memmove'):
            self.memcpy(i, n, args)
            return
        if n.startswith('llvm.memset') or n == 'memset':
            L.append('vpl_memset(%s, %s, %s);' % (args[0], args[1], args[2]))
            self.externs.add('memset')
            if i.res:
                self.setr(i, args[0])
            return
        if n.startswith('llvm.'):
            b = n.split('.')[1]
            tyn = n.split('.')[-1]
            if b in ('abs',):
                self.setr(i, '(%s < 0 ? (%s)(0 - (%s)%s) : %s)' % (args[0], self.cty(i.ty), UINTT[i.ty[1]], args[0], args[0]))
                return
            if b in ('smax', 'smin', 'umax', 'umin'):
                ct = (INTT if b[0] == 's' else UINTT)[i.ty[1]]
                c = '>' if b.endswith('max') else '<'
                self.setr(i, '((%s)%s %s (%s)%s ? %s : %s)' % (ct, args[0], c, ct, args[1], args[0], args[1]))
                return
            if b in ('fabs',):
                self.setr(i, '(%s < 0 ? -%s : %s)' % (args[0], args[0], args[0]))
                return
            if b in ('floor', 'ceil', 'sqrt', 'trunc', 'round', 'sin', 'cos', 'pow', 'exp', 'log'):
                self.externs.add(b)
                self.setr(i, 'vpl_%s(%s)' % (b, ', '.join(args)))
                return
            if b == 'fmuladd':
                self.setr(i, '(%s * %s + %s)' % tuple(args))
                return
            if b == 'is':
                self.externs.add('isfpclass')
                self.setr(i, 'vpl_isfpclass(%s, %s)' % (args[0], args[1]))
                return
            if b == 'fshl':
                n_ = i.ty[1]
                self.setr(i, '(int)(((unsigned)%s << (%s & %d)) | ((%s & %d) ? ((unsigned)%s >> (%d - (%s & %d))) : 0))' % (
                    args[0], args[2], n_ - 1, args[2], n_ - 1, args[1], n_, args[2], n_ - 1))
                return
            raise TransError('intrinsic ' + n)
        va = None
        if n in self.mod.funcs and san(n) not in self.o.get('override', ()):
            f = self.mod.funcs[n]
            nm = self.fname(n)
            if f.vararg:
                va = len(f.params)
        else:
            nm = 'vpl_' + san(n)
            self.externs.add(n)
            d = self.mod.decls.get(n)
            if n in self.mod.funcs:
                va = len(self.mod.funcs[n].params) if self.mod.funcs[n].vararg else None
            elif d and d[2]:
                va = len(d[1])
        if va is not None:
            extra = i.ops[va:]
            self.ntmp += 1
            t = 'va_%d' % self.ntmp
            self.decls.append('struct vp_va %s[%d];' % (t, max(1, len(extra))))
            for k, (ty, v) in enumerate(extra):
                fld = {'int': 'i', 'fp': 'd', 'ptr': 'p'}[ty[0]]
                e = self.val(ty, v)
                L.append('%s[%d].%s = %s;' % (t, k, fld, e))
            args = args[:va] + [t]
        self.ret(i, '%s(%s)' % (nm, ', '.join(args)))

    def ret(self, i, e):
        if i.res is not None and i.ty != ('void',):
            self.setr(i, e)
        else:
            self.L.append(e + ';')

    def obj_type(self, v):
        """static type of object a pointer operand certainly points at the start of"""
        if v[0] == 'local' and v[1] in self.alloca_t:
            return self.alloca_t[v[1]]
        if v[0] == 'global' and v[1] in self.mod.globals:
            return self.mod.globals[v[1]].ty
        return None

    def memcpy(self, i, n, args):
        d, s, ln = i.ops[0][1], i.ops[1][1], i.ops[2][1]
        mv = 'memmove' in n
        if ln[0] == 'int':
            t = self.obj_type(s) or self.obj_type(d)
            if t is not None:
                rt = self.mod.resolve(t)
                el = rt
                while el[0] == 'arr':
                    el = self.mod.resolve(el[2])
                if el[0] in ('ptr', 'fp', 'int', 'struct') and self.mod.size(el) > 1 and ln[1] % self.mod.size(el) == 0 \
                        and not mv:
                    ct = self.cty(el) if el[0] != 'struct' else None
                    if ct:
                        for k in range(ln[1] // self.mod.size(el)):
                            self.L.append('((%s *)%s)[%d] = ((%s *)%s)[%d];' % (ct, args[0], k, ct, args[1], k))
                        if i.res:
                            self.setr(i, args[0])
                        return
                    if el[0] == 'struct' and t[0] == 'named' and ln[1] == self.mod.size(t):
                        ct = self.cty(t)
                        self.L.append('*(%s *)%s = *(%s *)%s;' % (ct, args[0], ct, args[1]))
                        if i.res:
                            self.setr(i, args[0])
                        return
        nm = 'memmove' if mv else 'memcpy'
        self.externs.add(nm)
        self.L.append('vpl_%s(%s, %s, %s);' % (nm, args[0], args[1], args[2]))
        if i.res:
            self.setr(i, args[0])

    # ---- whole program
    def generate(self):
        self.collect()
        self.named()
        bodies = []
        for n in self.needed_f:
            bodies.append(self.emit_func(self.mod.funcs[n]))
        gl = []
        for n in self.needed_g:
            g = self.mod.globals[n]
            if g.init is None:
                self.externs.add(n)
                continue
            gl.append('%s %s = %s;' % (self.cty(g.ty), self.gname(n), self.const(g.ty, g.init, True)))
        gdecl = ['extern %s %s;' % (self.cty(self.mod.globals[n].ty), self.gname(n)) for n in self.needed_g
                 if self.mod.globals[n].init is not None]
        protos = [self.proto(self.mod.funcs[n]) + ';' for n in self.needed_f]
        self.unmodelled = {n for n in self.externs if not re.search(r'\bvpl_%s\b' % re.escape(san(n)), self.models)}
        out = [self.models]
        # typedef order: dict insertion order is dependency order
        out += [v for v in self.typedefs.values() if v]
        out += gdecl + protos + gl + bodies
        out.append('int main(void) { %s(); return 0; }' % self.fname(self.entry))
        return '\n'.join(out) + '\n'

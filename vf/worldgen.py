"""Seeded generator of header files (the programs of the end-to-end simulation) together with the glue that lets the
simulator core call the functions and set the expectations.  Nothing here looks at the generated mock: names, layouts
and semantics come from the header model only."""
import random
import re

LK = {n: i for i, n in enumerate(['UINT', 'INT', 'BOOL', 'FLOAT', 'DOUBLE', 'LDOUBLE', 'PTR', 'ENUM', 'BITS', 'UBITS'])}
PC_VALUE, PC_PTR, PC_VOIDPTR, PC_REF = range(4)
MK_NONE, MK_EQ, MK_PTR, MK_DEREF, MK_STR, MK_CUSTOM = range(6)


class T:
    """A type. use: how it is spelled; kind: prim, enum, comp, ptr, fnptr, opaque, void."""
    def __init__(self, kind, use, **kw):
        self.kind = kind
        self.use = use
        self.__dict__.update(kw)

    def decl(self, name):
        if self.kind == 'ptr' and not self.use:
            inner = self.to
            if inner.kind == 'fnptr' and inner.raw:
                return inner.decl('*' + name)
            q = 'const ' if self.const else ''
            return '%s%s' % (q, inner.decl('*' + name))
        if self.kind == 'fnptr' and self.raw:
            return self.raw % name
        return '%s %s' % (self.use, name)

    @property
    def spelled(self):
        return self.decl('').strip()


def prim(use, lk, m, cpp=None):
    return T('prim', use, lk=lk, m=m)


PRIMS = [prim('char', 'INT', 'char'), prim('signed char', 'INT', None), prim('unsigned char', 'UINT', 'u_char'),
         prim('short', 'INT', 'short'), prim('unsigned short', 'UINT', 'u_short'), prim('int', 'INT', 'int'),
         prim('unsigned int', 'UINT', 'u_int'), prim('long', 'INT', 'long'), prim('unsigned long', 'UINT', 'u_long'),
         prim('long long', 'INT', 'long_long'), prim('unsigned long long', 'UINT', 'u_long_long'),
         prim('float', 'FLOAT', 'float'), prim('double', 'DOUBLE', 'double'), prim('long double', 'LDOUBLE', 'long_double')]
CHAR = PRIMS[0]
INT = PRIMS[5]
# names that generated code is likely to use itself
INNER_NAMES = ['call', 'match', 'name', 'data', 'i', 'idx', 'x', 'params', 'param', 'fun', 'cur', 'expectedCall', 'currentCall_val', 'error',
               'size', 'result', 'ret', 'rv', 'to', 'from', 'count', 'index', 'next', 'value', 'res', 'buf', 'matcher', 'ptr', 'out']
VOID = T('void', 'void')


class Fn:
    def __init__(self, name):
        self.name = name
        self.params = []      # (T, name or None, pclass)
        self.ret = None
        self.variadic = False
        self.ns = []
        self.cls = None
        self.const = False
        self.attr = ''
        self.inc = False      # declared in the included header
        self.static = False


def asked(t):
    return [n.split('_', 1)[1] if n.startswith(('struct_', 'union_')) else n for n in t.cmp or []]


def commented(r, text, p):
    """The same tokens with comments between some of them."""
    out = []
    for t in re.findall(r'\.\.\.|::|&&|\w+|\s+|.', text):
        out.append(t)
        if r.random() < p:
            out.append(r.choice([' /* a, b */ ', '/* { ; */', ' // one, (two [ {\n ', ' /* x *//* y */ ', '\n', '/**/', ' /* " */ ', ' /* * / */ ', ' /* [ : */ ', '/***/', ' //\n', " /* it's // */ "]))
    return ''.join(out)


class Module:
    pass


class Gen:
    def __init__(self, seed, idx, lang, prof):
        self.r = random.Random('%s/%d/%s' % (seed, idx, lang))
        self.idx = idx
        self.seed = seed
        self.cpp = lang == 'cpp'
        self.p = prof
        self.n = 0
        self.decls = []           # text of the type declarations, in order
        self.inc_decls = []
        self.types = []           # usable named types
        self.comps = []
        self.prims = list(PRIMS)
        self.prims.append(T('prim', 'bool' if self.cpp else '_Bool', lk='BOOL', m=None))
        self.pref = 'm%d' % idx
        self.consts = []
        self.macros = []
        self.tags = []
        self.ordinary = []
        self.joined = []

    def ch(self, p):
        return self.r.random() < p

    def name(self, kind):
        self.n += 1
        return '%s_%s%d' % (self.pref, kind, self.n)

    # ---- types -------------------------------------------------------------------------------------------
    def mk_enum(self):
        n = self.name('e')
        vals = []
        v = self.r.choice([0, 0, 1, -3, 5, 100])
        body = []
        for i in range(self.r.randint(1, 6)):
            vn = '%s_V%d' % (n, i)
            if i and self.ch(0.2):
                # a second name for a value, or a value below the ones before
                v = self.r.choice(vals + [min(vals) - self.r.randint(1, 300)])
                body.append('%s = %d' % (vn, v) if self.ch(0.7) or v not in vals else '%s = %s_V%d' % (vn, n, vals.index(v)))
            elif i == 0 or self.ch(0.3):
                v += self.r.randint(0, 1000)
                body.append('%s = %d' % (vn, v))
            else:
                body.append(vn)
            vals.append(v)
            v += 1
        style = self.r.randint(0, 3)
        if self.cpp and self.gt:
            style = 0
        at = ' __attribute__((packed))' if self.ch(self.p.get('packedenum', 0.12)) else ''
        big = self.ch(self.p.get('bigenum', 0.08))
        if big:
            v = self.r.choice([1 << 31, 1 << 32, (1 << 40) + self.r.randint(0, 999), -(1 << 33), (1 << 62) + 5])
            body.append('%s_V%d = %d' % (n, len(vals), v))
            vals.append(v)
        fixed = scoped = ''
        if self.cpp and not at and not big and self.ch(self.p.get('fixedenum', 0.3)):
            if style == 0 and self.ch(0.5):
                scoped = self.r.choice([' class', ' struct'])
            ok = [k for k, lo, hi in (('short', -32768, 32767), ('unsigned char', 0, 255), ('signed char', -128, 127), ('long long', -1 << 63, 1 << 62), ('unsigned', 0, 1 << 31), ('int', -1 << 31, 1 << 30)) if min(vals) >= lo and max(vals) <= hi]
            fixed = ' : ' + self.r.choice(ok)
            if scoped and self.ch(0.3):
                fixed = ''
        if style == 0:
            self.decls.append('enum%s %s%s { %s }%s;' % (scoped, n, fixed, ', '.join(body), at))
            use = 'enum ' + n
        elif style == 1:
            self.decls.append('typedef enum%s { %s }%s %s;' % (fixed, ', '.join(body), at, n))
            use = n
        else:
            self.decls.append('typedef enum %s%s%s { %s }%s %s;' % (n, '_tag' if style == 2 else '', fixed, ', '.join(body), at, n))
            use = n
        if style != 3:
            self.ordinary += [n] if style else []
        if style in (0, 2, 3):
            self.tags.append(n + '_tag' if style == 2 else n)
        if self.cpp and style == 0 and self.ch(0.5):
            use = n
        names = [('%s::' % n if scoped else '') + '%s_V%d' % (n, i) for i in range(len(vals))]
        if not scoped:
            self.consts += names
        return T('enum', use, vals=vals, names=names, m=None if at or big or fixed or scoped else 'u_int' if min(vals) >= 0 else 'int')

    def mk_typedef(self):
        n = self.name('t')
        base = self.r.choice(self.prims + [t for t in self.types if t.kind == 'prim' or t.kind == 'enum' and '::' not in t.names[0]])
        self.decls.append('typedef %s;' % base.decl(n))
        self.ordinary.append(n)
        d = dict(base.__dict__)
        d.update(use=n)
        d.pop('kind')
        return T(base.kind, **d)

    def mk_fnptr(self):
        n = self.name('cb')
        own = [t for t in self.types + self.comps if t.kind in ('prim', 'enum', 'comp', 'fnptr') and t.use]
        def one(base):
            if own and self.ch(0.5):
                t = self.r.choice(own)
                return self.r.choice(['%s', '%s', '%s *', 'const %s *', '%s **']) % t.use if t.kind != 'fnptr' else t.use
            return self.r.choice(base)
        ret = one(['void', 'int', 'unsigned char', 'void *', 'double'])
        ps = ', '.join(one(['int', 'char *', 'void *', 'const int *', 'double', 'unsigned long']) for _ in range(self.r.randint(0, 3))) or 'void'
        self.decls.append('typedef %s (*%s)(%s);' % (ret, n, ps))
        return T('fnptr', n, raw=None)

    def field_scalar(self):
        c = self.r.random()
        if c < 0.72:
            return self.r.choice(self.prims)
        e = [t for t in self.types if t.kind in ('enum', 'prim')]
        if e:
            return self.r.choice(e)
        return INT

    def field_ptr(self, selfuse):
        c = self.r.randint(0, 6)
        const = self.ch(0.3)
        if c == 0:
            return T('ptr', '', to=VOID, const=const)
        if c == 1:
            return T('ptr', '', to=CHAR, const=const)
        if c == 2 and self.comps:
            return T('ptr', '', to=self.r.choice(self.comps), const=const)
        if c == 3 and selfuse:
            return T('ptr', '', to=T('comp', selfuse, fields=None), const=False)
        if c == 4:
            f = [t for t in self.types if t.kind == 'fnptr']
            if f:
                return self.r.choice(f)
        if c == 5:
            return T('ptr', '', to=T('ptr', '', to=self.r.choice(self.prims), const=False), const=False)
        return T('ptr', '', to=self.r.choice(self.prims), const=const)

    def comp_fields(self, depth, union, selfuse):
        fs = []
        n = self.r.randint(1, 5) if union else self.r.choice([1, 2, 3, 4, 5, 6, 9])
        if self.ch(self.p.get('onefield', 0.02)):
            n = 1
        for _ in range(n):
            self.n += 1
            fn = 'f%d' % self.n
            c = self.r.random()
            if union:
                # members whose every bit pattern is a value
                ok = [p for p in self.prims if p.lk in ('INT', 'UINT', 'FLOAT', 'DOUBLE')]
                if c < 0.7:
                    fs.append(('plain', fn, self.r.choice(ok), None))
                elif c < 0.85:
                    fs.append(('plain', fn, self.r.choice([p for p in self.prims if p.lk in ('INT', 'UINT')]), self.r.randint(1, 5)))
                elif c < 0.93 or depth >= 2 or not self.p.get('anon', True):
                    fs.append(('plain', fn, T('ptr', '', to=INT, const=False), None))
                else:
                    # the members of an anonymous struct: every bit pattern of the union is a value of these
                    sub = [('plain', '%s_%d' % (fn, k), self.r.choice([p for p in ok if p.lk in ('INT', 'UINT')]), None) for k in range(self.r.randint(1, 3))]
                    fs.append(('anon', '', False, sub))
                continue
            if c < 0.40:
                fs.append(('plain', fn, self.field_scalar(), None))
            elif c < 0.52:
                fs.append(('plain', fn, self.field_ptr(selfuse), None))
            elif c < 0.64:
                t = self.r.choice(self.prims) if self.ch(0.8) else self.field_ptr(None)
                if self.ch(self.p.get('arrtd', 0.12)) and t.kind == 'prim':
                    td = self.name('at')
                    dims = [self.r.choice([1, 2, 3, 4]) for _ in range(self.r.choice([1, 1, 2]))]
                    self.decls.append('typedef %s%s;' % (t.decl(td), ''.join('[%d]' % d for d in dims)))
                    outer = [self.r.choice([1, 2, 3])] if self.ch(0.3) else []
                    fs.append(('plain', fn, t, outer + dims, '', {'td': td, 'outer': outer}))
                elif self.ch(self.p.get('multi', 0.1)):
                    # several declarators in one declaration
                    b = self.r.choice(self.prims)
                    for k in range(self.r.randint(2, 4)):
                        d = self.r.choice([b, b, T('ptr', '', to=b, const=False), T('ptr', '', to=T('ptr', '', to=b, const=False), const=False)])
                        fs.append(('plain', '%s_%d' % (fn, k), d, self.r.choice([None, None, 1, 3, [2, 2]]), '', {'grp': fn, 'base': b.use}))
                elif self.ch(self.p.get('inlptr', 0.06)) and not self.cpp:
                    fs.append(('plain', fn, T('ptr', '', to=T('prim', 'struct { int i_%s; %s}' % (fn, self.r.choice(['', 'char c; '])), lk='INT', m=None), const=False), None))
                elif self.ch(0.25):
                    fs.append(('plain', fn, t, [self.r.choice([1, 2, 3, 4]) for _ in range(self.r.choice([2, 2, 2, 3]))]))
                else:
                    fs.append(('plain', fn, t, self.r.choice([1, 2, 3, 4, 7, 16] + [257, 300] * (self.ch(self.p.get('bigarray', 0.04)) and t.kind == 'prim'))))
            elif c < 0.76 and self.p.get('bitfields', True):
                for k in range(self.r.choice([1, 1, 2, 3, 4])):
                    base = self.r.choice([self.prims[5], self.prims[6], self.prims[2], self.prims[4], self.prims[8]])
                    if self.ch(self.p.get('oddbits', 0.15)):
                        e = [t for t in self.types if t.kind == 'enum' and t.m == 'u_int'] + [self.prims[-1]]
                        base = self.r.choice(e)
                        least = max(base.vals).bit_length() if base.kind == 'enum' else 1
                        fs.append(('bits', fn if not k else '%s_%d' % (fn, k), base, self.r.choice([max(1, least), max(1, least), self.r.randint(max(1, least), 31)]) if base.kind == 'enum' else 1))
                        continue
                    bitmax = {'int': 31, 'unsigned int': 32, 'unsigned char': 8, 'unsigned short': 16, 'unsigned long': 64}[base.use]
                    if self.ch(0.3):
                        fs.append(('pad', '', self.r.choice([base, base, self.prims[8]]), self.r.choice([0, 0, 1, 5])))
                    fs.append(('bits', fn if not k else '%s_%d' % (fn, k), base, min(bitmax, self.r.choice([2, 3, 5, bitmax, self.r.randint(2, bitmax)]))))
            elif c < (0.86 if n < 4 else self.p.get('nested', 0.86)) and self.comps:
                if self.ch(self.p.get('longfield', 0.05)):
                    fn += '_' + 'm' * self.r.choice([60, 200, 245, 249, 250, 251, 300])
                fs.append(('plain', fn, self.r.choice(self.comps), None if self.ch(0.6) else self.r.randint(1, 3)))
            elif c < 0.93 and depth < 2 and self.p.get('anon', True):
                u = self.ch(0.4)
                fs.append(('anon', '', u, self.comp_fields(depth + 1, u, None)))
            elif depth < 2 and self.p.get('inline_named', True):
                u = self.ch(0.4)
                fs.append(('inline', fn, u, self.comp_fields(depth + 1, u, None)))
            else:
                fs.append(('plain', fn, self.r.choice(self.prims), None))
        if not any(f[0] != 'pad' for f in fs):
            fs.append(('plain', 'f0', INT, None))
        small = [t for t in self.comps if t.fields and len(t.fields) == 1 and t.fields[0][0] == 'plain']
        if small and not union and not depth and self.ch(self.p.get('smallarr', 0.08)):
            self.n += 1
            fs.insert(0, ('plain', 'f%d' % self.n, self.r.choice(small), self.r.randint(2, 4)))
        return fs

    def comp_text(self, fs, ind=1):
        out = []
        pad = '  ' * ind
        grp = None
        for f in fs:
            if f[0] == 'plain':
                at = f[4] if len(f) > 4 else ''
                more = f[5] if len(f) > 5 else {}
                if 'td' in more:
                    out.append('%s%s %s%s;' % (pad, more['td'], f[1], ''.join('[%d]' % d for d in more['outer'])))
                    continue
                if 'grp' in more:
                    d = f[2].decl(f[1])[len(more['base']):] + ''.join('[%d]' % x for x in (f[3] if isinstance(f[3], list) else [f[3]] if f[3] else []))
                    if out and grp == more['grp']:
                        out[-1] = out[-1][:-1] + ',' + d + ';'
                    else:
                        out.append(pad + more['base'] + d + ';')
                    grp = more['grp']
                    continue
                if isinstance(f[3], list):
                    out.append('%s%s%s%s;' % (pad, f[2].decl(f[1]), ''.join('[%d]' % d for d in f[3]), at))
                elif self.comment_fields and random.Random(f[1]).random() < 0.3:
                    out.append(commented(random.Random(f[1]), '%s%s%s' % (pad, f[2].decl(f[1]), '[%d]' % f[3] if f[3] else ''), 0.2) + at + ';')
                else:
                    out.append('%s%s%s%s;%s' % (pad, f[2].decl(f[1]), '[%d]' % f[3] if f[3] else '', at, '' if len(f[1]) < 3 or f[1][-2:] not in ('13', '27', '41') else '   // is it; int *b' if f[1][-1] != '7' else ' /* int */'))
            elif f[0] == 'flex':
                out.append('%s%s%s[];' % (pad, f[2].decl(f[1]), ''))
            elif f[0] == 'pad':
                out.append('%s%s : %d;' % (pad, f[2].use, f[3]))
            elif f[0] == 'bits':
                out.append('%s%s %s : %d;' % (pad, f[2].use, f[1], f[3]))
                if self.comment_fields:
                    r = random.Random(out[-1])
                    out[-1] = commented(r, out[-1], 0.2) if r.random() < 0.3 else out[-1]
            else:
                out.append('%s%s {\n%s\n%s}%s;' % (pad, 'union' if f[2] else 'struct', self.comp_text(f[3], ind + 1), pad, ' ' + f[1] if f[1] else ''))
        return '\n'.join(out)

    def mk_comp(self, last=False):
        union = self.ch(0.2)
        flex = last and not union and not self.cpp and self.ch(0.2)
        kw = 'union' if union else 'struct'
        n = self.name('u' if union else 's')
        style = self.r.choice([0, 0, 1, 2, 3])
        if self.cpp:
            style = 0 if self.gt or self.ch(0.7) else style
        tag = n if style == 0 else n + '_tag'
        name0 = n
        if not self.cpp and self.ch(self.p.get('likenames', 0.12)):
            # names that only differ in what they are names of, or in where one ends and the next begins
            c = self.r.randint(0, 2)
            if c == 2:
                k = [x for x in self.ordinary + self.tags if x + 's' not in self.ordinary + self.tags and x + 's_tag' not in self.tags]
                if k:
                    n = self.r.choice(k) + 's'
                    tag = n if style == 0 else n + '_tag'
            elif c == 0 and style in (0, 2, 3):
                used = [x for x in self.ordinary if x not in self.tags]
                if used:
                    tag = self.r.choice(used)
            elif c == 1 and style == 2 and self.joined:
                a, b = self.r.choice(self.joined)
                j = (a + '_' + b).split('_')
                k = self.r.randint(1, len(j) - 1)
                a, b = '_'.join(j[:k]), '_'.join(j[k:])
                if self.pref in a.split('_') and self.pref in b.split('_') and a not in self.tags and b not in self.ordinary:
                    tag, n = a, b
        if style in (0, 2, 3):
            self.tags.append(tag)
        if style == 0:
            n = tag
        else:
            self.ordinary.append(n)
        if style in (2, 3):
            self.joined.append((tag, n))
        tagged = style in (0, 2, 3)
        fs = self.comp_fields(0, union, '%s %s' % (kw, tag) if tagged and not union else None)
        at = ''
        if not flex and self.ch(self.p.get('layout', 0.2)):
            at = self.r.choice([' __attribute__((packed))', ' __attribute__((packed))', ' __attribute__((aligned(16)))', ' __attribute__((packed, aligned(2)))', 'pack1', 'pack2', 'pack4'])
        elif not flex and self.ch(0.15):
            k = self.r.randrange(len(fs))
            if fs[k][0] == 'plain' and len(fs[k]) == 4:
                fs[k] = fs[k] + (' __attribute__((aligned(%d)))' % self.r.choice([8, 16]),)
        if flex:
            fs.append(('flex', 'f_flex', self.r.choice(self.prims), None))
        txt = self.comp_text(fs)
        first = len(self.decls)
        if at.startswith('pack'):
            if any(f[0] == 'bits' for f in fs) or any(f[0] in ('anon', 'inline') for f in fs):
                at = ' __attribute__((packed))'
            else:
                self.decls.append('#pragma pack(push, %s)' % at[4:])
                first = -1
                at = ''
        if style == 0:
            bases = self.base_classes(fs) if self.cpp and not self.gt and not union else []
            inh = ' : ' + ', '.join(self.r.choice(['', 'public ']) + b.use.split()[-1] for b in bases) if bases else ''
            self.decls.append('%s %s%s {\n%s\n}%s;' % (kw, n, inh, txt, at))
            fs = [f for b in bases for f in b.fields] + fs
            use, cmpn = '%s %s' % (kw, n), ['%s_%s' % (kw, n)]
            if self.cpp and self.ch(0.5):
                use = n
        elif style == 1:
            self.decls.append('typedef %s%s {\n%s\n} %s%s;' % (kw, at, txt, n, self.mk_named_ptr(n, fs, union, style)))
            use, cmpn = n, [n]
        elif style == 2:
            self.decls.append('typedef %s %s {\n%s\n}%s %s%s;' % (kw, tag, txt, at, n, self.mk_named_ptr(n, fs, union, style)))
            use, cmpn = n, [n]
        else:
            self.decls.append('%s %s {\n%s\n}%s;\ntypedef %s %s %s;' % (kw, tag, txt, at, kw, tag, n))
            use, cmpn = n, [n, '%s_%s' % (kw, tag)]
        if first < 0:
            self.decls.append('#pragma pack(pop)')
        if style in (2, 3) and not flex and self.ch(self.p.get('tagtoo', 0.25)):
            # used under both names
            self.alias = T('comp', '%s %s' % (kw, tag), fields=fs, union=union, cmp=[], style=style)
        return T('comp', use, fields=fs, union=union, cmp=cmpn, style=style)

    def base_classes(self, fs):
        """C++: the structs a struct with these fields inherits from."""
        def names(fs):
            return set(x for f in fs for x in (names(f[3]) if f[0] == 'anon' else [f[1]] if f[1] else []))
        ok = [t for t in self.comps if t.style == 0 and not t.union and t.fields and not any(f[0] == 'flex' for f in t.fields)]
        bases, used = [], names(fs)
        while ok and len(bases) < 2 and self.ch(self.p.get('inherit', 0.35)):
            b = self.r.choice(ok)
            if not names(b.fields) & used:
                bases.append(b)
                used |= names(b.fields)
        return bases

    def mk_named_ptr(self, n, fs, union, style):
        """The further declarator of 'typedef struct {...} A, *PA;', if any."""
        if self.cpp or not self.ch(self.p.get('namedptr', 0.1)):
            return ''
        pn = self.name('pt')
        self.named_ptrs.append(T('fnptr', pn, raw=None))     # handled as a value
        return ', *' + pn

    def contained(self, t):
        """t and the types it contains, or None if one of these has no name."""
        out = [t]
        if not t.cmp or t.fields is None:
            return None
        def walk(fs):
            for f in fs:
                if f[0] == 'inline':
                    return False
                if f[0] == 'anon' and not walk(f[3]):
                    return False
                if f[0] == 'plain' and f[2].kind == 'comp':
                    sub = self.contained(f[2])
                    if sub is None:
                        return False
                    out.extend(x for x in sub if x not in out)
            return True
        return out if walk(t.fields) else None

    # ---- functions ----------------------------------------------------------------------------------------
    def value_type(self):
        c = self.r.random()
        if c < 0.55:
            return self.r.choice(self.prims)
        pool = [t for t in self.types if t.kind in ('prim', 'enum')]
        if c < 0.70 and pool:
            return self.r.choice(pool)
        if c < 0.95 and self.comps:
            return self.r.choice(self.comps)
        f = [t for t in self.types if t.kind == 'fnptr']
        if f and c > 0.97:
            return self.r.choice(f)
        return self.r.choice(self.prims)

    def param(self):
        c = self.r.random()
        if c < 0.5:
            t = self.value_type()
            if self.cpp and t.kind in ('prim',) and self.ch(0.12) and self.p.get('refs', True):
                return (t, PC_REF, self.ch(0.4))
            if self.cpp and t.kind == 'comp' and t.style == 0 and self.ch(0.35) and self.p.get('refs', True):
                return (t, PC_REF, self.ch(0.4))
            return (t, PC_VALUE, False)
        if c < 0.62:
            return (T('ptr', '', to=VOID, const=self.ch(0.3)), PC_VOIDPTR, False)
        if c < 0.68 and self.opaque:
            return (T('ptr', '', to=self.r.choice(self.opaque), const=self.ch(0.3)), PC_VOIDPTR, False)
        if c < 0.71 and self.named_ptrs:
            return (self.r.choice(self.named_ptrs), PC_VALUE, False)
        const = self.ch(0.35)
        if c < 0.76:
            to = CHAR
        elif c < 0.82:
            to = T('ptr', '', to=self.r.choice(self.prims + self.comps), const=const)
            const = False
        else:
            to = self.r.choice(self.prims)
            if self.comps and self.ch(0.6):
                to = self.r.choice(self.comps)
            elif self.ch(0.2):
                e = [t for t in self.types if t.kind in ('prim', 'enum')]
                if e:
                    to = self.r.choice(e)
        return (T('ptr', '', to=to, const=const), PC_PTR, False)

    def mk_fn(self, ns, cls):
        f = Fn(self.name('fn'))
        if self.names and not self.cpp and self.ch(self.p.get('prefixed', 0.12)):
            f.name = self.r.choice(self.names) + self.r.choice(['_all', 'x', '2', '_', '_fn9', 'a0'])
            if f.name in self.names:
                f.name = self.name('fn')
        elif self.ch(self.p.get('longname', 0.04)):
            f.name += '_' + 'n' * self.r.choice([40, 120, 200, 240, 246, 250, 256, 300, 600])
        f.ns = ns
        f.cls = cls
        twin = [g for g in self.long if g.ns == ns and g.cls == cls]
        twin = self.r.choice(twin) if twin and self.ch(0.4) else None
        if twin:        # the first hundreds of characters of the two declarations are the same
            f.name = twin.name + self.r.choice('abc') + '%d' % self.n
        if len(f.name) > 110:
            self.long.append(f)
        self.names.append(f.name)
        np = self.r.choice([0, 1, 1, 2, 2, 3, 3, 4, 6]) if not self.ch(self.p.get('wide', 0.02)) else 12
        longp = self.ch(self.p.get('longparam', 0.03))
        for i in range(np):
            t, pc, cref = self.param()
            nm = None if self.ch(self.p.get('unnamed', 0.06)) else 'p%d' % i
            if nm and self.ch(self.p.get('inparam', 0.08)):
                nm = self.r.choice(INNER_NAMES)
                if nm in [(q[1] or '').split('_q')[0] for q in f.params]:
                    nm = 'p%d' % i
            if nm and longp:
                nm += '_' + 'q' * self.r.choice([8, 30, 45])
            f.params.append((t, nm, pc, cref))
        if self.ch(0.25):
            f.ret = None
        else:
            c = self.r.random()
            if c < 0.15:
                f.ret = T('ptr', '', to=self.r.choice([VOID, CHAR, INT] + self.comps), const=self.ch(0.3))
            else:
                f.ret = self.value_type()
        if twin:
            f.ret = twin.ret
        f.variadic = bool(f.params) and not cls and self.ch(self.p.get('variadic', 0.06)) and f.params[-1][2] != PC_REF \
            and f.params[-1][0].use not in ('float', 'char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'bool', '_Bool')
        f.const = bool(cls) and self.ch(0.3)
        f.comments = self.ch(self.p.get('comments', 0.07))
        f.pconst = set()
        f.spell = [self.r.random() for _ in f.params]
        f.extern = not cls and self.ch(0.1)
        if not cls and self.ch(self.p.get('attr', 0.05)):
            f.attr = ' __attribute__((%s))' % self.r.choice(['cold', 'used', 'unused', 'warn_unused_result' if f.ret else 'cold'])
        f.section = f.weak = f.pre = None
        if not cls and self.genattr is not None and self.ch(0.5):
            at = self.r.sample(['section', 'weak', 'deprecated', 'aligned', 'visibility'], self.r.choice([1, 1, 2]))
            val = {'section': 'section("esec_%s")' % f.name[:40], 'weak': 'weak', 'deprecated': 'deprecated("use, (the) other")', 'aligned': 'aligned(64)', 'visibility': 'visibility("hidden")'}
            f.section = 'esec_' + f.name[:40] if 'section' in at and ('section' in self.genattr or not self.gt) else None
            f.weak = 'weak' in at and ('weak' in self.genattr or not self.gt)
            txt = ['__attribute__((%s))' % ', '.join(val[a] for a in at)] if self.ch(0.5) else ['__attribute__((%s))' % val[a] for a in at]
            if self.ch(0.7):
                f.attr = ' ' + ' '.join(txt)
            else:
                f.pre = ' '.join(txt)
        return f

    def share_name(self, f, fns):
        """C++: gives f the name of another function: in another scope, or overloaded in the same one."""
        same = [g for g in fns if g.name.startswith(self.pref) and len(g.name) < 100]
        if not same:
            return
        n = self.r.choice(same).name
        peers = [g for g in fns if g.name == n and g.ns == f.ns and g.cls == f.cls]
        if peers:
            if any(g.variadic for g in peers + [f]):
                return
            like = [g for g in peers if len(g.params) == len(f.params)]
            if like:
                if not f.params:
                    return
                plain = [p for p in PRIMS if p.m]
                used = []
                for g in like:
                    if g.params[0][2] != PC_VALUE or g.params[0][0] not in plain:
                        return
                    used.append(g.params[0][0])
                left = [p for p in plain if p not in used]
                f.params[0] = (self.r.choice(left), f.params[0][1], PC_VALUE, False)
        elif self.ch(0.5):
            g = self.r.choice([g for g in same if g.name == n])
            if bool(g.cls) == bool(f.cls) and not any(self.inline_ns[tuple(q.ns[:k + 1])] for q in (f, g) for k in range(len(q.ns))):
                f.params, f.ret, f.variadic, f.const, f.spell = list(g.params), g.ret, g.variadic, g.const, list(g.spell)
        f.name = n

    def fn_decl(self, f):
        ps = []
        pre = ''
        for t, nm, pc, cref in f.params:
            n = nm or ''
            if pc == PC_REF:
                ps.append(('const ' if cref else '') + t.decl('&' + n))
            elif t.kind == 'ptr' and pc == PC_PTR and nm and (f.name[-1] in '37' or f.spell[len(ps)] > 0.85) and t.to.kind in ('prim', 'enum', 'comp') and t.to.use not in ('void', 'void '):
                dim = '[%d]' % (3 if f.name[-1] == '3' else 17)
                if f.spell[len(ps)] > 0.9:
                    dim = '[]' if f.spell[len(ps)] > 0.95 or self.cpp else '[static 3]'
                elif f.spell[len(ps)] > 0.85 and t.to.use and not self.cpp:
                    # an array by the name of its type
                    a = self.name('ap')
                    pre += 'typedef %s[%s];\n' % (t.to.decl(a), dim[1:-1])
                    ps.append(('const ' if t.const else '') + a + ' ' + n)
                    continue
                ps.append(('const ' if t.const else '') + t.to.decl(n) + dim)
            elif t.kind == 'ptr' and nm and f.spell[len(ps)] < 0.1:
                ps.append(t.decl('const ' + n))
                f.pconst.add(len(ps) - 1)
            elif t.kind in ('prim', 'enum', 'comp') and pc == PC_VALUE and nm and f.spell[len(ps)] < 0.08 and (not f.variadic or len(ps) < len(f.params) - 1):
                ps.append('const ' + t.decl(n))
                f.pconst.add(len(ps) - 1)
            elif t.kind == 'ptr' and nm and f.spell[len(ps)] < 0.15:
                ps.append(t.decl('__restrict ' + n))
            else:
                ps.append(t.decl(n).strip())
        if f.variadic:
            ps.append('...')
        body = ', '.join(ps) or ('' if self.cpp else 'void')
        if f.comments:
            cm = lambda: self.r.choice([' /* a, b */ ', ' /* ) */', ' // one, (two\n ', ' /* x *//* y */ ', '\n', ' /**/ ', ' /* " */ '])
            if self.ch(0.5):
                body = ''.join(x + (cm() if k % 2 and self.ch(0.6) else '') for k, x in enumerate(re.split('(, )', body)))
            else:
                body = commented(self.r, body, 0.3)
            body = (cm() if self.ch(0.4) else '') + body + (cm() if self.ch(0.4) else '')
        q = ' const' if f.const else ''
        d = '%s(%s)%s' % (f.name, body, q)
        d = f.ret.decl(d) if f.ret else 'void ' + d
        if f.comments and self.ch(0.7):
            k = d.index(f.name + '(')
            d = commented(self.r, d[:k], 0.4) + d[k:]
        d += f.attr + ';'
        if f.pre:
            d = f.pre + ' ' + d
        if f.extern:
            d = 'extern ' + d
        return pre + d

    def build(self):
        m = Module()
        r = self.r
        self.opaque = []
        self.named_ptrs = []
        self.names = []
        self.long = []
        self.comment_fields = self.ch(self.p.get('comments', 0.07) * 2)
        self.gt = m.gen_types = self.ch(self.p.get('gen_types', 0.3)) and not self.p.get('no_gen_types')
        self.genattr = None
        if self.ch(self.p.get('genattr', 0.12)):
            self.genattr = r.sample(['section', 'weak', 'deprecated', 'aligned', 'visibility', 'nosuch'], r.randint(0, 4))
        for _ in range(r.randint(0, 2)):
            self.types.append(self.mk_enum())
        for _ in range(r.randint(0, 3)):
            self.types.append(self.mk_typedef())
        for _ in range(r.randint(0, 2)):
            self.types.append(self.mk_fnptr())
        lo, hi = self.p.get('comps', (1, 4))
        nc = r.randint(lo, hi)
        for i in range(nc):
            self.alias = None
            self.comps.append(self.mk_comp(i == nc - 1))
            if self.alias:
                self.comps.append(self.alias)
            if self.ch(0.12):
                self.types.append(self.mk_fnptr())
        if self.ch(0.4):
            n = self.name('o')
            if self.ch(0.6):
                self.decls.append('struct %s;' % n)
                self.opaque.append(T('opaque', 'struct ' + n))
            else:
                self.decls.append('typedef struct %s%s %s;' % (n, self.r.choice(['', '_tag']), n))
                self.opaque.append(T('opaque', n))
        ntype = len(self.decls)
        fns = []
        text = []
        lo, hi = self.p.get('fns', (3, 7))
        nf = r.randint(lo, hi)
        classes = []
        if not self.cpp:
            for _ in range(nf):
                f = self.mk_fn([], None)
                fns.append(f)
                text.append(self.fn_decl(f))
        else:
            nss = []
            self.inline_ns = {}
            while len(fns) < nf:
                c = r.random() * (0.65 if self.gt else 1)
                if nss and self.ch(0.2):
                    ns = r.choice(nss)         # opened again, or one more level
                    ns = ns[:r.randint(0, len(ns))] + ([self.name('ns')] if self.ch(0.3) else [])
                else:
                    ns = [self.name('ns') for _ in range(r.choice([0, 0, 1, 1, 2, 3]))]
                nss.append(ns)
                for k in range(len(ns)):
                    self.inline_ns.setdefault(tuple(ns[:k + 1]), self.ch(0.08))
                op = ''.join('%snamespace %s {\n' % ('inline ' if self.inline_ns[tuple(ns[:k + 1])] else '', x) for k, x in enumerate(ns))
                if not any(self.inline_ns[tuple(ns[:k + 1])] for k in range(len(ns))) and len(ns) > 1 and self.ch(0.3):
                    op = 'namespace %s {\n' % '::'.join(ns)
                cl = '}\n' * op.count('{')
                if not ns and self.ch(0.15) and c < 0.65 and not self.gt:
                    op, cl = 'extern "C" {\n', '}\n'
                if c < 0.65:
                    k = r.randint(1, 3)
                    part = []
                    for _ in range(1 if 'extern' in op else k):
                        f = self.mk_fn(ns, None)
                        if self.ch(self.p.get('same', 0.2)) and 'extern' not in op:
                            self.share_name(f, fns)
                        fns.append(f)
                        part.append(('[[nodiscard]] ' if f.ret and self.ch(0.08) and not f.extern else '') + self.fn_decl(f))
                    text.append(op + '\n'.join(part) + '\n' + cl)
                else:
                    cn = self.name('K')
                    # a class with the same name in another namespace, with some functions of the same signature
                    plain = not any(self.inline_ns[tuple(ns[:k + 1])] for k in range(len(ns)))
                    beside = [c for c in classes if plain and c[0] in nss]
                    twin = []
                    if beside and self.ch(self.p.get('likeclass', 0.35) / 2):
                        # another class in the same namespace, with some functions of the same signature
                        ns, t = r.choice(beside)
                        op = ''.join('namespace %s {\n' % x for x in ns)
                        cl = '}\n' * len(ns)
                        plain = not any(self.inline_ns[tuple(ns[:k + 1])] for k in range(len(ns)))
                        if plain:
                            twin = [g for g in fns if g.cls == t and g.ns == ns]
                    like = [] if twin else [c for c in classes if c[0] != ns and (ns, c[1]) not in classes and not any(self.inline_ns[tuple(c[0][:k + 1])] for k in range(len(c[0])))]
                    if like and plain and self.ch(self.p.get('likeclass', 0.35)):
                        t = r.choice(like)
                        cn = t[1]
                        twin = [g for g in fns if g.cls == cn and g.ns == t[0]]
                    part = []
                    for _ in range(r.randint(1, 3)):
                        f = self.mk_fn(ns, cn)
                        if twin and self.ch(0.7) and not any(q.ns == ns and q.cls == cn and q.name == twin[-1].name for q in fns):
                            g = twin.pop()
                            f.params, f.ret, f.variadic, f.const, f.spell, f.name = list(g.params), g.ret, g.variadic, g.const, list(g.spell), g.name
                        elif self.ch(self.p.get('same', 0.2)):
                            self.share_name(f, fns)
                        fns.append(f)
                        part.append('  ' + self.fn_decl(f))
                    classes.append((ns, cn))
                    hid = self.r.choice(['', '', '  int hidden_fn(int a);\n', '  static const int limit = 3;\n', '  void *hidden_ptr;\n'])
                    base = ''
                    if len(classes) > 1 and self.ch(0.25):
                        bn = r.choice(classes[:-1])
                        base = ' : public ::%s' % '::'.join(bn[0] + [bn[1]])
                    text.append(op + 'class %s%s {\npublic:\n%s\nprivate:\n%s  int hidden;\n};\n' % (cn, base, '\n'.join(part), hid) + cl)
        # option dimensions
        m.opts = []
        stem = self.pref + (r.choice(['.pb', ' api', '-x+y', '_hdr.v2', '.a.b']) if self.ch(self.p.get('oddname', 0.2)) else '_hdr')
        m.header_name = '%s.%s' % (stem, 'h' if not self.cpp or self.ch(0.7) else r.choice(['hpp', 'hh', 'hxx']))
        selected = list(fns)
        shared = random.Random('stem %s' % self.seed)
        if shared.random() < 0.2:
            m.header_name = shared.choice(['api.h', 'api.v2.h', 'if.h'])      # every module of this world is called that
        m.include_fns = False
        sel = r.random()
        psel = self.p.get('select', 0.15)
        inc_text = []
        if sel < psel and len(fns) > 1:
            # any combination of: some functions come from an included header, only these, all but these
            mode = r.choice([1, 2, 4, 4, 3, 5, 6, 7]) if not self.cpp else r.choice([1, 2, 3])
            moved = r.sample(fns, r.randint(1, len(fns) - 1)) if mode & 4 else []
            only = r.sample(fns, r.randint(1, max(1, len(fns) - 1 - (mode == 3)))) if mode & 1 else []
            ign = r.sample(fns, r.randint(1, max(1, len(fns) - 1 - (mode & 1)))) if mode & 2 else []
            allinc = bool(moved) and self.ch(0.55)
            on = set(f.name for f in only)
            ig = set(f.name for f in ign)
            for o, l in (('--mock-only', only), ('--ignore-generation-of', ign)):
                for f in l:
                    m.opts += [o, f.name]
            if allinc:
                m.opts.append('--generate-included-functions')
            if moved:
                inc_text = [text[i] for i, f in enumerate(fns) if f in moved]
                text = [t for i, t in enumerate(text) if fns[i] not in moved]
            selected = [f for f in fns if (allinc or f not in moved) and (not only or f.name in on) and f.name not in ig]
            if not selected:
                f = r.choice(fns)
                only, moved, m.opts = [], [], ['--ignore-generation-of', f.name]
                if inc_text:
                    m.opts.append('--generate-included-functions')
                selected = [g for g in fns if g.name != f.name]
            if not selected:
                m.opts = []
                selected = list(fns)
        m.split = bool(inc_text) or self.ch(0.25)
        m.cmp_all = self.ch(self.p.get('comparators', 0.8))
        m.cmp_some = None
        if m.cmp_all:
            m.opts += ['--generate-comparator-of', 'EasyMock_all_comparators']
        elif self.ch(0.6):
            # the comparators of some types, and of the types these contain
            m.cmp_some = []
            for t in r.sample(self.comps, r.randint(0, len(self.comps))):
                need = self.contained(t)
                # an option names a typedef as well as a tag
                if need is not None and not any(set(asked(x)) & set(asked(y)) for x in need for y in self.comps if y is not x and y.cmp):
                    m.cmp_some += [x for x in need if x not in m.cmp_some]
            for x in r.sample(m.cmp_some, len(m.cmp_some)):
                for n in asked(x):
                    m.opts += ['--generate-comparator-of', n]
        m.cmp_off = []
        tags = sorted(set(n.split('_', 1)[1] for t in self.comps for n in t.cmp or [] if n.startswith(('struct_', 'union_'))))
        if tags and not m.gen_types and self.ch(self.p.get('ignfields', 0.06)):
            # some types stay unknown to the mock: functions that use them work, comparators of them have nothing to compare
            off = r.sample(tags, r.choice([1, 1, len(tags)]))
            for n in off:
                m.opts += ['--ignore-field-generation-of', n]
            for t in self.comps:
                sub = self.contained(t)
                if sub is None or any(n.split('_', 1)[-1] in off for x in sub for n in x.cmp):
                    m.cmp_off.append(t)
        for a in self.genattr or []:
            m.opts += ['--generate-attribute', a]
        if m.gen_types:
            m.opts.append('--generate-types')
        if self.cpp:
            m.opts += ['--mock-cpp', '-xc++']
        extra = []
        incs = {}
        if self.ch(0.2):
            # a function that only exists with the right -D
            f = self.mk_fn([], None)
            f.variadic = False
            extra.append('#ifdef %s_FLAG\n%s\n#else\nvoid %s_wrong(void);\n#endif' % (self.pref, self.fn_decl(f), self.pref))
            m.opts.append('-D%s_FLAG=1' % self.pref)
            m.defs = ['-D%s_FLAG=1' % self.pref]
            if '--mock-only' in m.opts:
                m.opts += ['--mock-only', f.name]
            m.opts = [o for i, o in enumerate(m.opts) if not (f.name in m.opts[i:i + 2] and '--ignore-generation-of' in m.opts[max(0, i - 1):i + 1])]
            fns.append(f)
            selected.append(f)
        else:
            m.defs = []
        if self.ch(self.p.get('cppargs', 0.15)):
            P = self.pref
            seq = r.choice([['-D{0}_A=1', '-U{0}_A', '-D{0}_A=2'], ['-D{0}_A=1', '-D{0}_A=2'], ['-D{0}_A=2'], ['-U{0}_A', '-D{0}_A=2'], ['-D{0}_B=7', '-U{0}_B', '-D{0}_A=2'], ['-D{0}_N%d' % k for k in range(12)] + ['-D{0}_A=2']])
            seq = [x.format(P) for x in seq]
            dirs = []
            if self.ch(0.5):
                dirs = r.choice([['inc1', 'inc2'], ['inc1', 'inc2', 'inc3'], ['inc0', 'inc1', 'inc2']])
                for k, d in enumerate(x for x in dirs if x != 'inc0'):
                    incs['%s/%s_cfg.h' % (d, P)] = '#define %s_CFG %d\n' % (P, k + 1)
                extra.append('#include <%s_cfg.h>\n#if %s_CFG != 1\n#error wrong directory\n#endif' % (P, P))
                # these stand between the others
                for d in dirs:
                    seq.insert(max([k for k, x in enumerate(seq) if x.startswith('-I')] or [-1]) + 1 + r.randint(0, 1), '-I' + d)
            extra.append('#if !defined(%s_A) || %s_A != 2 || defined(%s_B)\n#error wrong definition\n#endif' % (P, P, P))
            m.opts += seq
            m.defs = m.defs + seq
        if self.ch(0.3) and not self.cpp:
            k = r.randint(2, 100000)
            extra.append('#define %s_MAC(x) ((x) + %d)\n#define %s_VAL (%d - 7)' % (self.pref, k, self.pref, k))
            self.macros += ['%s_MAC(5)' % self.pref, '%s_VAL' % self.pref]
        if self.ch(0.3) and not self.cpp:
            P = self.pref
            k = r.randint(2, 9)
            extra.append(r.choice(['#define {0}_TWO(a, b) ((a) * {1} - (b))', '#define {0}_TWO(a,b) (sizeof(#a #b))', '#define {0}_TWO( a , b ) (a##b + {1})']).format(P, k))
            extra.append(r.choice(['#define {0}_ONE {1}', '#define {0}_ONE(...) {1}', '#define {0}_ONE()({1})', '#define {0}_ONE(x, ...) (x)']).format(P, k))
            extra.append('#define %s_NOTHING' % P)
            if self.ch(0.4):
                extra.append(r.choice(['#define {0}_GONE {1}\n#undef {0}_GONE\n#define {0}_GONE ({1} + 1)', '#define {0}_GONE(a) (a)\n#undef {0}_GONE\n#define {0}_GONE {1}',
                                       '#define {0}_GONE 1\n#undef {0}_GONE\nenum {{ {0}_GONE = {1} }};']).format(P, k))
                if 'enum {' not in extra[-1]:
                    self.macros.append('%s_GONE' % P)
                else:
                    extra.append('#undef %s_NEVER' % P)
            extra.append(r.choice(["#define {0}_STR \"a\\\"b%d\\n\"", "#define {0}_STR 'x'", '#define {0}_STR "/* no */ // {1}"', '#define {0}_STR ( 1 + \\\n   {1} )', '#define {0}_STR {0}_TWO(3, 4)']).format(P, k))
            one = [e for e in extra if '_ONE' in e][-1]
            self.macros += ['%s_TWO(3, 4)' % P, '%s_NOTHING %s_ONE%s' % (P, P, '()' if '_ONE()' in one or '(...)' in one else '(7, 8)' if '(x' in one else ''), 'sizeof(%s_STR)' % P]
        if self.ch(self.p.get('parseerr', 0.04)):
            # what the parser does not understand has nothing to do with the functions
            err = r.choice(['#error this compiler is not supported', 'no_such_type %s_v;' % self.pref, 'extern int %s_v = "x";' % self.pref, '_Static_assert(0, "no");' if not self.cpp else 'static_assert(false, "no");',
                            '#include "%s_no_such_file.h"' % self.pref, 'extern struct %s_nt { no_such_type a; int b; } %s_v;' % (self.pref, self.pref)])
            text.insert(r.choice([0, len(text)]), '#ifdef __clang__\n%s\n#endif' % err)
            m.opts.append('--ignore-parser-error')
        if self.ch(0.2) and not m.gen_types:
            extra.append('static inline int %s_inl(int a) { return a + 1; }' % self.pref)
        # things the mock has nothing to do with
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            k = r.randint(0, 8)
            nn = self.name('z')
            if k == 0 and not m.gen_types:
                extra.append('static int %s(int a);' % nn)
            elif k == 1:
                extra.append('extern int %s;' % nn)
            elif k == 2:
                extra.append('extern const char *const %s[4];' % nn)
            elif k == 3:
                text.insert(r.randint(0, len(text)), '/* int %s(int a); */' % nn)
            elif k == 4:
                extra.append('typedef int %s(int, char *);' % nn)
            elif k == 5:
                text.insert(r.randint(0, len(text)), '#line %d' % r.randint(1, 5000))
            elif k == 6 and not self.cpp:
                again = [t for t, f in zip(list(text), fns) if t == self.fn_decl(f)] if len(text) == len(fns) else []
                if again:
                    extra.append(r.choice(again))
            elif k == 7:
                extra.append('struct %s_t;' % nn)
            else:
                extra.append('#ifdef %s_UNDEFINED\nint %s(int a)\n#endif' % (nn, nn))
        g = '%s_HDR_H' % self.pref
        if m.split:
            sub = r.choice(['%s_types.h' % self.pref, '%s_types.h' % self.pref, 'sub/%s_types.h' % self.pref, 'sub/' + m.header_name, m.header_name.rsplit('.', 1)[0] + '.inc'])
            m.files = {sub: '#ifndef %s_T\n#define %s_T\n%s\n%s\n#endif\n' % (g, g, '\n'.join(self.decls), '\n'.join(inc_text)),
                       m.header_name: '#ifndef %s\n#define %s\n#include "%s"\n%s\n#endif\n' % (g, g, sub, '\n'.join(text + extra))}
        else:
            m.files = {m.header_name: '#ifndef %s\n#define %s\n%s\n%s\n#endif\n' % (g, g, '\n'.join(self.decls), '\n'.join(text + extra))}
        m.files.update(incs)
        m.sib = None
        if self.ch(self.p.get('sibling', 0.15)) and not m.gen_types and '--mock-only' not in m.opts and '--ignore-generation-of' not in m.opts:
            # a second header mocked into the same directory, with a similar name
            keep = self.types, self.comps, self.opaque
            self.types, self.comps, self.opaque = [], [], []
            self.named_ptrs = []
            self.long = []
            more = [self.mk_fn([], None) for _ in range(r.randint(1, 3))]
            self.types, self.comps, self.opaque = keep
            m.sib = r.choice(['%s.sib.h', '%s-sib.h', '%s_sib.h', 'sib.%s.h']) % m.header_name.split('.')[0]
            sg = '%s_SIB_H' % self.pref
            m.files[m.sib] = '#ifndef %s\n#define %s\n%s\n#endif\n' % (sg, sg, '\n'.join(self.fn_decl(f) for f in more))
            fns += more
            selected += [f for f in more if f not in selected]
        if self.ch(0.5):
            # the options in another order
            groups, k = [], 0
            while k < len(m.opts):
                w = 2 if m.opts[k] in ('--mock-only', '--ignore-generation-of', '--generate-comparator-of', '--generate-attribute', '--ignore-field-generation-of') else 1
                groups.append(m.opts[k:k + w])
                k += w
            pre = [g for g in groups if g[0][:2] in ('-D', '-U', '-I')]
            r.shuffle(groups)
            pre.reverse()
            m.opts = [o for g in groups for o in (pre.pop() if g[0][:2] in ('-D', '-U', '-I') else g)]
        m.fns = fns
        m.selected = selected
        m.unselected = [f for f in fns if f not in selected]
        m.cpp = self.cpp
        m.idx = self.idx
        m.pref = self.pref
        m.classes = classes
        m.base = m.header_name.rsplit('.', 1)[0]
        m.mock_src = 'easyMock_%s.%s' % (m.base, 'cpp' if self.cpp else 'c')
        m.mock_hdr = 'easyMock_%s.h' % m.base
        m.inputs = [m.header_name]
        m.mock_srcs = [m.mock_src]
        m.mock_hdrs = [m.mock_hdr]
        if m.sib:
            k = r.randint(0, 1)
            m.inputs.insert(k, m.sib)
            m.mock_srcs.insert(k, 'easyMock_%s.%s' % (m.sib[:-2], 'cpp' if self.cpp else 'c'))
            m.mock_hdrs.insert(k, 'easyMock_%s.h' % m.sib[:-2])
        m.comps = self.comps
        self.glue(m)
        return m

    # ---- glue ------------------------------------------------------------------------------------------------
    def leaves(self, t, path='', root=None, name='', out=None):
        """[(name, path, kind, sizeexpr, bits)]"""
        if out is None:
            out = []
        if t.kind == 'prim':
            out.append((name, path, t.lk, None))
        elif t.kind == 'enum':
            out.append((name, path, 'ENUM', t))
        elif t.kind in ('ptr', 'fnptr'):
            out.append((name, path, 'PTR', None))
        elif t.kind == 'comp':
            self.fleaves(t.fields, path, out)
        else:
            raise Exception(t.kind)
        return out

    def fleaves(self, fs, path, out):
        for f in fs:
            base = path + '.' if path else ''
            if f[0] == 'plain':
                if isinstance(f[3], list):
                    idx = ['']
                    for d in f[3]:
                        idx = ['%s[%d]' % (a, i) for a in idx for i in range(d)]
                    for i in idx:
                        self.leaves(f[2], base + f[1] + i, None, f[1], out)
                elif f[3]:
                    for i in range(f[3]):
                        self.leaves(f[2], '%s%s[%d]' % (base, f[1], i), None, f[1], out)
                else:
                    self.leaves(f[2], base + f[1], None, f[1], out)
            elif f[0] == 'bits':
                out.append((f[1], base + f[1], 'BITS' if f[2].kind == 'prim' and f[2].lk == 'INT' else 'UBITS', (f[3], f[2])))
            elif f[0] == 'anon':
                self.fleaves(f[3], path, out)
            elif f[0] == 'inline':
                self.fleaves(f[3], base + f[1], out)

    def type_key(self, t):
        return t.spelled

    def emit_type(self, t, out):
        key = self.type_key(t)
        if key in self.tmap:
            return self.tmap[key]
        k = 'ty%d' % len(self.tmap)
        self.tobj.setdefault(key, t)
        self.tmap[key] = k
        ls = self.leaves(t)
        rows = []
        for i, (name, path, kind, x) in enumerate(ls):
            if kind in ('BITS', 'UBITS'):
                g = '%s_%d' % (k, i)
                x, bt = x
                out.append('static int64_t g_%s(const void* p) { return (int64_t)((const %s*)p)->%s; }' % (g, t.use, path))
                out.append('static void s_%s(void* p, int64_t v) { ((%s*)p)->%s = (%s)v; }' % (g, t.use, path, bt.use))
                rows.append('{"%s", 0, %d, %d, g_%s, s_%s}' % (name, x, LK[kind], g, g))
            elif kind == 'ENUM':
                acc = '->' + path if path else '[0]'
                g = '%s_%d' % (k, i)
                out.append('static int64_t g_%s(const void* p) { return (int64_t)((const %s*)p)%s; }' % (g, t.use, acc))
                vals = ', '.join(str(v) for v in x.vals)
                for e in x.names:
                    self.used_consts.setdefault(e)
                out.append('static void s_%s(void* p, int64_t v) { static const int64_t vals[] = {%s}; ((%s*)p)%s = (%s)vals[(uint64_t)v %% %d]; }'
                           % (g, vals, t.use, acc, x.use, len(x.vals)))
                off = 'offsetof(%s, %s)' % (t.use, path) if path else '0'
                rows.append('{"%s", %s, sizeof(%s), %d, g_%s, s_%s}' % (name, off, x.use, LK[kind], g, g))
            else:
                off = 'offsetof(%s, %s)' % (t.use, path) if path else '0'
                sz = 'sizeof(((%s*)0)->%s)' % (t.use, path) if path else 'sizeof(%s)' % t.spelled
                rows.append('{"%s", %s, %s, %d, 0, 0}' % (name, off, sz, LK[kind]))
        out.append('static const sim_leaf lf_%s[] = {\n  %s\n};' % (k, ',\n  '.join(rows)))
        out.append('static const sim_type %s = {"%s", sizeof(%s), %d, lf_%s};' % (k, key, t.spelled, len(rows), k))
        return k

    def matchers(self, t, pc, cref, cst=''):
        """[(mk, name, expression, mutable wrapper text)] without the leading 'none'"""
        ms = []
        if not self.cpp:
            if pc == PC_VALUE:
                if t.kind in ('prim', 'enum') and t.m:
                    ms.append((MK_EQ, 'cmp_' + t.m))
                elif t.kind == 'comp' and self.cmpok(t):
                    ms.append((MK_EQ, 'cmp_' + t.cmp[0]))
                elif t.kind in ('fnptr',):
                    ms.append((MK_EQ, 'cmp_pointer'))
            elif pc == PC_VOIDPTR:
                ms.append((MK_PTR, 'cmp_pointer'))
            elif pc == PC_PTR:
                ms.append((MK_PTR, 'cmp_pointer'))
                to = t.to
                if to.kind in ('prim', 'enum') and to.m:
                    ms.append((MK_DEREF, 'cmp_deref_ptr_' + to.m))
                elif to.kind == 'comp' and self.cmpok(to):
                    ms.append((MK_DEREF, 'cmp_deref_ptr_' + to.cmp[0]))
                elif to.kind == 'ptr':
                    ms.append((MK_DEREF, 'cmp_deref_ptr_pointer'))
                if to.kind == 'prim' and to.use == 'char':
                    ms.append((MK_STR, 'cmp_str'))
        else:
            chars = ('char', 'signed char', 'unsigned char')
            if pc == PC_VALUE and t.kind in ('prim', 'enum') and not (t.kind == 'enum' and '::' in t.names[0]):
                ms.append((MK_EQ, 'EasyMock::cmp<%s%s>' % (t.spelled, cst)))
            elif pc == PC_REF and t.kind == 'prim':
                ms.append((MK_EQ, 'EasyMock::cmp<%s%s&>' % (t.use, ' const' if cref else '')))
            elif pc in (PC_VOIDPTR, PC_PTR) and not (t.to.kind == 'prim' and t.to.use in chars) \
                    and not (t.to.kind == 'prim' and t.to.lk in ('INT', 'UINT') and t.to.use.startswith(self.pref)):
                ms.append((MK_PTR, 'EasyMock::cmp<%s%s>' % (t.spelled, cst)))
            if pc == PC_PTR and t.to.kind == 'prim' and t.to.use == 'char':
                ms.append((MK_STR, 'simw<%s%s, cmp_str>' % (t.spelled, cst)))
            if pc == PC_VALUE and t.kind == 'comp' and self.cmpok(t):
                ms.append((MK_EQ, 'simw<%s%s, cmp_%s>' % (t.spelled, cst, t.cmp[0])))
            if pc == PC_REF and t.kind == 'comp' and self.cmpok(t):
                ms.append((MK_EQ, 'simw<%s%s&, cmp_%s>' % (t.spelled, ' const' if cref else '', t.cmp[0])))
            if pc == PC_PTR and t.to.kind == 'comp' and self.cmpok(t.to):
                ms.append((MK_DEREF, 'simw<%s%s, cmp_deref_ptr_%s>' % (t.spelled, cst, t.to.cmp[0])))
        return ms

    def glue(self, m):
        self.cmpok = lambda t: bool(t.cmp) and t not in m.cmp_off and (m.cmp_all or bool(m.cmp_some) and t in m.cmp_some)
        self.tmap = {}
        self.tobj = {}
        self.used_consts = {}
        c = ['#include "simabi.h"'] + ['#include "%s"' % h for h in m.inputs] + ['']
        x = ['#include "simabi.h"'] + ['#include "%s"' % h for h in m.mock_hdrs] + ['']
        if not self.cpp:
            x += ['DECLARE_DEREF_PTR_MATCHER(%s);' % n for n in
                  sorted(set(p.m for p in PRIMS if p.m)) + ['pointer']]
        if self.cpp:
            x.append('#include <string>\n#include <sstream>\n#include <cstring>')
            x.append('template<int F, int P, class A> bool simm(const A& c, const A& e, const std::string n, std::ostringstream& o)\n'
                     '{ char b[256]; b[0] = 0; int r = sim_on_match(%d, F, P, (const void*)&c, (const void*)&e, n.c_str(), b, sizeof b); if(r) o << b; return r != 0; }' % m.idx)
            x.append('template<class A, int (*C)(const void*, const void*, const char*, char*)> bool simw(const A& c, const A& e, const std::string n, std::ostringstream& o)\n'
                     '{ char b[256]; b[0] = 0; int r = C((const void*)&c, (const void*)&e, n.c_str(), b); if(r) o << b; return r != 0; }')
        cf, xf = [], []
        ext = 'extern "C" ' if self.cpp else ''
        insts = []
        for (ns, cn) in m.classes:
            q = '::'.join(ns + [cn])
            insts.append(q)
        if insts:
            for i, q in enumerate(insts):
                c.append('static char inst_%d[4][sizeof(::%s) + 16] __attribute__((aligned(16)));' % (i, q))
        for k, f in enumerate(m.selected):
            f.id = k
            f.disp = f.name
            if sum(g.name == f.name for g in m.fns) > 1:
                f.disp = '::'.join(f.ns + ([f.cls] if f.cls else []) + [f.name])
            ats, calls, xcalls, mk_rows, prow, psz = [], [], [], [], [], []
            xm = []
            outs, outsz_args = [], []
            for i, (t, nm, pc, cref) in enumerate(f.params):
                cst = ' const' if self.cpp and i in f.pconst else ''
                ms = self.matchers(t, pc, cref, cst)
                kinds = [MK_NONE] + [a for a, _ in ms] + [MK_CUSTOM]
                names = ['none'] + [b for _, b in ms] + ['custom']
                out = 0
                text = 0
                if pc == PC_VALUE:
                    ty = '&' + self.emit_type(t, c)
                    arg = '*(%s)a[%d]' % (T('ptr', '', to=t, const=False).spelled, i)
                    psz.append('sizeof(%s)' % t.spelled)
                    isc = 0
                elif pc == PC_REF:
                    ty = '&' + self.emit_type(t, c)
                    arg = '**(%s**)a[%d]' % (t.use, i)
                    psz.append('sizeof(%s)' % t.spelled)
                    isc = int(cref)
                elif pc == PC_VOIDPTR:
                    ty = '0'
                    isc = int(t.const)
                    out = 0 if isc else 2
                    arg = '*(%s)a[%d]' % (T('ptr', '', to=t, const=False).spelled, i)
                    psz.append('0')
                else:
                    ty = '&' + self.emit_type(t.to, c)
                    isc = int(t.const)
                    deep = t
                    const_any = False
                    while deep.kind == 'ptr':
                        const_any = deep.const
                        deep = deep.to
                    out = 0 if const_any or deep.kind in ('fnptr',) else (2 if deep.kind in ('void', 'opaque') else 1)
                    text = int(t.to.kind == 'prim' and t.to.use == 'char')
                    arg = '*(%s)a[%d]' % (T('ptr', '', to=t, const=False).spelled, i)
                    psz.append('sizeof(%s)' % t.to.spelled)
                calls.append(arg)
                cf.append('static const uint32_t mk_%d_%d[] = {%s};' % (k, i, ', '.join(map(str, kinds))))
                cf.append('static const char* const mn_%d_%d[] = {%s};' % (k, i, ', '.join('"%s"' % n for n in names)))
                prow.append('{%s, %d, %d, %d, %d, %s, %d, mk_%d_%d, mn_%d_%d}' % ('"%s"' % nm if nm else '0', pc, isc, out, text, ty, len(kinds), k, i, k, i))
                if self.cpp:
                    mt = '%s%s%s%s' % (t.spelled, cst, ' const' if pc == PC_REF and cref else '', '&' if pc == PC_REF else '')
                    xf.append('static ::EasyMock::EasyMock_Matcher_Cpp<%s> const M_%d_%d[] = {nullptr%s, simm<%d, %d, %s>};'
                              % (mt, k, i, ''.join(', ' + b for _, b in ms), k, i, mt))
                else:
                    xf.append('static int simm_%d_%d(const void* c, const void* e, const char* n, char* m) { return sim_on_match(%d, %d, %d, c, e, n, m, 256); }' % (k, i, m.idx, k, i))
                    xf.append('static EasyMock_Matcher const M_%d_%d[] = {0%s, simm_%d_%d};' % (k, i, ''.join(', ' + b for _, b in ms), k, i))
                xm.append('M_%d_%d[m[%d]]' % (k, i, i))
                if out:
                    outs.append('(%s)o[%d]' % (t.spelled, i))
                    if out == 2:
                        outs.append('osz[%d]' % i)
            anyout = bool(outs)
            retk = '0'
            if f.ret:
                retk = '&' + self.emit_type(f.ret, c)
                psz.append('sizeof(%s)' % f.ret.spelled)
            else:
                psz.append('0')
            va = ''
            if f.variadic:
                va = ', 7, "x", 2.5'
            if f.cls:
                q = '::' + '::'.join(f.ns + [f.cls])
                tgt = '((%s%s*)inst)->%s' % ('const ' if f.const else '', q, f.name)
            else:
                tgt = '::'.join(f.ns + [f.name])
                if self.cpp:
                    tgt = '::' + tgt
            body = '%s(%s%s)' % (tgt, ', '.join(calls), va)
            if f.ret:
                rp = T('ptr', '', to=f.ret, const=False).spelled
                cf.append('static void call_%d(void* inst, void* const* a, void* r) { (void)inst; (void)a; %s rv = %s; __builtin_memcpy(r, &rv, sizeof rv); }'
                          % (k, f.ret.decl('').strip(), body) if f.ret.kind != 'fnptr' else
                          'static void call_%d(void* inst, void* const* a, void* r) { (void)inst; (void)a; %s rv = %s; __builtin_memcpy(r, &rv, sizeof rv); }' % (k, f.ret.use, body))
                xret = ['*(%s)r' % rp]
            else:
                cf.append('static void call_%d(void* inst, void* const* a, void* r) { (void)inst; (void)a; (void)r; %s; }' % (k, body))
                xret = []
            if prow:
                cf.append('static const sim_param pr_%d[] = {\n  %s\n};' % (k, ',\n  '.join(prow)))
            prow_ref = 'pr_%d' % k if prow else '0'
            f.row = '{"%s", %d, %d, %s, %s, call_%d}' % (f.disp, 1 + m.classes.index((f.ns, f.cls)) if f.cls else 0, len(f.params), prow_ref, retk, k)
            inst = []
            if f.cls:
                inst = ['(%s*)inst' % q]
            if self.cpp:
                api = '::EasyMock::' + '::'.join(f.ns + ([f.cls] if f.cls else []) + [f.name]) + '::'
            else:
                api = f.name + '_'
            base = ', '.join(inst + calls + xret + xm)
            xf.append('static void ex_%d(void* inst, void* const* a, const void* r, const int* m) { (void)inst; (void)a; (void)r; (void)m; %sExpectAndReturn(%s); }' % (k, api, base))
            if anyout:
                xf.append('static void exo_%d(void* inst, void* const* a, const void* r, const int* m, void* const* o, const size_t* osz) { (void)inst; (void)a; (void)r; (void)m; (void)o; (void)osz; %sExpectReturnAndOutput(%s); }'
                          % (k, api, ', '.join(inst + calls + xret + xm + outs)))
            xf.append('static const uint32_t ps_%d[] = {%s};' % (k, ', '.join(psz)))
            f.xrow = '{ex_%d, %s, ps_%d}' % (k, 'exo_%d' % k if anyout else '0', k)
        c += cf
        c.append('static const sim_fn fns[] = {\n  %s\n};' % ',\n  '.join(f.row for f in m.selected))
        if insts:
            c.append('static void* instance(int k) { switch((k >> 8) %% %d) { %s } return 0; }' % (
                len(insts), ' '.join('case %d: return inst_%d[k & 3];' % (i, i) for i in range(len(insts)))))
        else:
            c.append('static void* instance(int k) { (void)k; return 0; }')
        c.append('%sconst sim_module sim_mod;' % ('extern "C" ' if self.cpp else 'extern '))
        c.append('const sim_module sim_mod = {"%s", %d, %d, fns, instance};' % (m.pref, int(self.cpp), len(m.selected)))
        lay = []
        tmap, self.tmap = self.tmap, {}
        for key, t in self.tobj.items():
            lay.append('&' + self.emit_type(t, x))
        self.tmap = tmap
        c.append('%sconst sim_type* const sim_types[];' % ('extern "C" ' if self.cpp else 'extern '))
        c.append('const sim_type* const sim_types[] = {%s};' % ', '.join(['&' + k for k in tmap.values()] + ['0']))
        x.append('%sconst sim_type* const sim_xtypes[];' % ('extern "C" ' if self.cpp else 'extern '))
        x.append('const sim_type* const sim_xtypes[] = {%s};' % ', '.join(lay + ['0']))
        consts = (self.consts if not m.gen_types else list(self.used_consts)) + self.macros
        for L, nm in ((c, 'sim_consts'), (x, 'sim_xconsts')):
            L.append('%sconst int64_t %s[];' % ('extern "C" ' if self.cpp else 'extern ', nm))
            L.append('const int64_t %s[] = {%s};' % (nm, ', '.join(['%d' % len(consts)] + ['(int64_t)(%s)' % k for k in consts])))
        x += xf
        x.append('%sconst sim_xfn sim_xfns[];' % ('extern "C" ' if self.cpp else 'extern '))
        x.append('const sim_xfn sim_xfns[] = {\n  %s\n};' % ',\n  '.join(f.xrow for f in m.selected))
        m.glue_call = '\n'.join(c) + '\n'
        m.glue_expect = '\n'.join(x) + '\n'


def make_module(seed, idx, lang, prof=None):
    m = Gen(seed, idx, lang, prof or {}).build()
    m.prof = prof or {}
    return m

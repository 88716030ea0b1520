"""Builds /repo's library to LLVM IR (clang -O0 + mem2reg) and parses the text of the IR.

Only the compiler front end is run: the library's code is never executed.
"""
import os, re, subprocess, tempfile, hashlib

REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = next((c for c in ('/usr/bin/clang-18', '/usr/bin/clang', 'clang-18', 'clang') if '/' not in c or os.path.exists(c)), 'clang')
OPT = next((c for c in ('/usr/bin/opt-18', '/usr/lib/llvm-18/bin/opt', 'opt-18') if '/' not in c or os.path.exists(c)), 'opt-18')


class AnalysisBroken(Exception):
    """The analysis cannot be set up (missing function, compile error): an error exit, no verdict."""


def header_functions():
    """Names of the inline API functions defined in the library's headers."""
    names = []
    d = os.path.join(REPO, 'tommyds')
    for f in sorted(os.listdir(d)):
        if f.endswith('.h'):
            t = open(os.path.join(d, f), errors='replace').read()
            t = re.sub(r'/\*.*?\*/', ' ', t, flags=re.S)
            for m in re.finditer(r'tommy_inline[^;{}()]*?\b(\w+)\s*\([^;{}]*\)\s*\{', t):
                if m.group(1) not in names:
                    names.append(m.group(1))
    return names


# the system headers are read with the compiler's macros, the library's own text without them
PORTABLE_PRE = '''
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <assert.h>
#undef __GNUC__
#undef __x86_64__
#undef __i386__
#undef _X86_
#undef __i386
#undef _M_IX86
#undef _M_X64
'''


def build(defines=(), flags=(), extra='', lang='c', main='tommy.c', include_headers=True, opt_passes='function(mem2reg)', pre='', portable=False, opt_flags=()):
    """Compile the whole library as one unit to textual IR; returns the IR text."""
    with tempfile.TemporaryDirectory(prefix='tommyir') as td:
        src = os.path.join(td, 'unit.' + ('cc' if lang == 'c++' else 'c'))
        out = os.path.join(td, 'unit.ll')
        out2 = os.path.join(td, 'unit2.ll')
        if pre == 'portable':
            pre, portable = '', True
        body = (PORTABLE_PRE if portable else '') + pre + '\n'
        if include_headers:
            body += '#include "%s/tommyds/tommy.h"\n' % REPO
        body += '#include "%s/tommyds/%s"\n%s\n' % (REPO, main, extra)

        def compile_with(names):
            t = body
            if names:
                t += 'void* verif_roots[] = { %s };\n' % ', '.join('(void*)%s' % n for n in names)
            open(src, 'w').write(t)
            return subprocess.run([CLANG, '-S', '-emit-llvm', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fno-discard-value-names',
                                   '-w', '-x', lang] + list(flags) + ['-D' + d for d in defines] + [src, '-o', out], capture_output=True, text=True)
        names = header_functions() if include_headers else []
        r = compile_with(names)
        if r.returncode and names:
            # drop the names that this configuration does not define
            bad = set(re.findall(r"use of undeclared identifier '(\w+)'", r.stderr))
            names = [n for n in names if n not in bad]
            r = compile_with(names)
        if r.returncode:
            raise AnalysisBroken('the library does not compile: ' + r.stderr[:800])
        r = subprocess.run([OPT, '-S', '-passes=' + opt_passes] + list(opt_flags) + [out, '-o', out2], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken('opt failed: ' + r.stderr[:500])
        return open(out2).read()


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'e')

    def __init__(self, k, n=None, e=None):
        self.k, self.n, self.e = k, n, e

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.n
        if self.k == 'arr':
            return '[%d x %r]' % (self.n, self.e)
        if self.k == 'named':
            return '%' + self.n
        return self.k


PTR = Ty('ptr')
VOID = Ty('void')

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"[^"]*"|[-\w.$]+))
 | (?P<glob>@(?:"[^"]*"|[-\w.$]+))
 | (?P<meta>!(?:[-\w.$]+)?)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)
 | (?P<hex>0x[0-9A-Fa-f]+)
 | (?P<word>[A-Za-z_][-\w.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[\[\]{}()<>,=*:|])
)''', re.X)


def tokenize(s):
    pos, out = 0, []
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == '':
                break
            raise AnalysisBroken('IR token: ' + s[pos:pos + 60])
        out.append(m.group(m.lastgroup))
        pos = m.end()
    return out


class P:
    """Token cursor."""

    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if self.next() != x:
            raise AnalysisBroken('IR: expected %s near %s' % (x, ' '.join(self.t[max(0, self.i - 6):self.i + 6])))

    def type(self):
        x = self.next()
        if x == 'ptr':
            t = PTR
        elif x == 'void':
            t = VOID
        elif re.fullmatch(r'i\d+', x):
            t = Ty('int', int(x[1:]))
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = Ty('arr', n, e)
        elif x == '{':
            es = []
            while not self.accept('}'):
                es.append(self.type())
                self.accept(',')
            t = Ty('struct', None, es)
        elif x == '<':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect('>')
            t = Ty('vec', n, e)
        elif x.startswith('%'):
            t = Ty('named', x[1:])
        elif x in ('metadata', 'label', 'double', 'float', 'x86_fp80', 'token', 'opaque'):
            t = Ty(x)
        else:
            raise AnalysisBroken('IR type: %s near %s' % (x, ' '.join(self.t[max(0, self.i - 6):self.i + 6])))
        while self.peek() == '(' and t.k in ('void', 'int', 'ptr') and self._is_fnty():
            d = 0
            while True:
                y = self.next()
                d += (y == '(') - (y == ')')
                if d == 0:
                    break
            while self.accept('*'):
                t = PTR
        return t

    def _is_fnty(self):
        # "ret (args) @f(" or "(args)*"
        d, j = 0, self.i
        while j < len(self.t):
            d += (self.t[j] == '(') - (self.t[j] == ')')
            j += 1
            if d == 0:
                break
        return j < len(self.t) and (self.t[j].startswith(('@', '%')) or self.t[j] == '*')

    ATTRS = {'noundef', 'noalias', 'nocapture', 'readonly', 'writeonly', 'signext', 'zeroext', 'nonnull', 'immarg', 'returned', 'inreg', 'readnone', 'noreturn', 'nounwind', 'dso_local', 'nofree', 'nest', 'swiftself'}

    def attrs(self):
        while True:
            x = self.peek()
            if x in self.ATTRS:
                self.next()
            elif x == 'align' and re.fullmatch(r'\d+', self.peek(1) or ''):
                self.next(); self.next()
            elif x in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'captures', 'memory', 'allocsize', 'range', 'align', 'alignstack', 'elementtype') and self.peek(1) == '(':
                self.next()
                d = 0
                while True:
                    y = self.next()
                    d += (y == '(') - (y == ')')
                    if d == 0:
                        break
            elif x and x.startswith('#'):
                self.next()
            else:
                return

    def value(self, ty):
        x = self.next()
        if x.startswith('%'):
            return ('reg', x[1:].strip('"'))
        if x.startswith('@'):
            return ('glob', x[1:].strip('"'))
        if x == 'null':
            return ('int', 0)
        if x in ('undef', 'poison'):
            return ('undef',)
        if x == 'zeroinitializer':
            return ('zero',)
        if x == 'true':
            return ('int', 1)
        if x == 'false':
            return ('int', 0)
        if re.fullmatch(r'-?\d+', x):
            return ('int', int(x))
        if x in ('getelementptr', 'inttoptr', 'ptrtoint', 'bitcast', 'add', 'sub', 'trunc', 'zext'):
            return self.constexpr(x)
        if x.startswith('c"'):
            return ('str', x[2:-1])
        if x == '[' or x == '{' or x == '<':
            end = {'[': ']', '{': '}', '<': '>'}[x]
            vs = []
            while not self.accept(end):
                t = self.type()
                vs.append((t, self.value(t)))
                self.accept(',')
            return ('agg', vs)
        if x.startswith('!'):
            # metadata operand
            d = 0
            while self.peek() not in (',', ')', None) or d:
                y = self.next()
                d += (y in '({') - (y in ')}')
            return ('meta',)
        return ('other', x)

    def constexpr(self, op):
        while self.peek() in ('inbounds', 'nuw', 'nsw', 'inrange', 'nusw'):
            self.next()
        self.expect('(')
        if op == 'getelementptr':
            st = self.type()
            self.expect(',')
            args = []
            while True:
                self.accept('inrange')
                t = self.type()
                args.append((t, self.value(t)))
                if self.accept(')'):
                    break
                self.expect(',')
            return ('cexpr', op, st, args)
        t = self.type()
        v = self.value(t)
        if self.accept('to'):
            t2 = self.type()
            self.expect(')')
            return ('cexpr', op, t2, [(t, v)])
        self.expect(',')
        t2 = self.type()
        v2 = self.value(t2)
        self.expect(')')
        return ('cexpr', op, t, [(t, v), (t2, v2)])


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'dbg', 'text', 'blk', 'idx')

    def __init__(self, op, res=None, ty=None, a=(), x=None):
        self.op, self.res, self.ty, self.a, self.x = op, res, ty, list(a), x
        self.dbg = None


class Block:
    def __init__(self, label):
        self.label = label
        self.ins = []
        self.succ = []
        self.pred = []


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []
        self.ret = VOID
        self.blocks = {}
        self.order = []
        self.dbg = None
        self.line = None
        self.file = None


class Module:
    def __init__(self, text, ptrbits=64):
        self.ptr = ptrbits // 8
        self.text = text
        self.structs = {}
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.md = {}
        self._parse(text)
        self._cfg()

    def global_bytes(self, g):
        """Initial content of a global as bytes, or None."""
        kind, t, v, _ = self.globals[g]
        if t is None or v is None:
            return None

        def enc(t, v):
            n = self.sizeof(t)
            if v[0] == 'zero':
                return b'\0' * n
            if v[0] == 'int':
                return (v[1] % (1 << (8 * n))).to_bytes(n, 'little')
            if v[0] == 'str':
                out, s, i = bytearray(), v[1], 0
                while i < len(s):
                    if s[i] == '\\':
                        if s[i + 1] == '\\':
                            out.append(92)
                            i += 2
                        else:
                            out.append(int(s[i + 1:i + 3], 16))
                            i += 3
                    else:
                        out.append(ord(s[i]))
                        i += 1
                return bytes(out)
            if v[0] == 'agg' and t.k == 'arr':
                return b''.join(enc(tt, x) for tt, x in v[1])
            raise KeyError
        try:
            return enc(t, v)
        except KeyError:
            return None

    # ---- layout
    def sizeof(self, t):
        if t.k == 'int':
            return max(1, (t.n + 7) // 8)
        if t.k == 'ptr':
            return self.ptr
        if t.k == 'arr':
            return t.n * self.sizeof(t.e)
        if t.k in ('named', 'struct'):
            off, al = 0, 1
            for e in self.fields(t):
                a = self.alignof(e)
                al = max(al, a)
                off = (off + a - 1) // a * a + self.sizeof(e)
            return (off + al - 1) // al * al
        if t.k == 'vec':
            return t.n * self.sizeof(t.e)
        if t.k == 'double':
            return 8
        if t.k == 'float':
            return 4
        raise AnalysisBroken('sizeof %r' % t)

    def alignof(self, t):
        if t.k == 'int':
            s = self.sizeof(t)
            return min(s, 4) if self.ptr == 4 else min(s, 16)
        if t.k == 'ptr':
            return self.ptr
        if t.k == 'arr':
            return self.alignof(t.e)
        if t.k in ('named', 'struct'):
            return max([1] + [self.alignof(e) for e in self.fields(t)])
        return self.sizeof(t)

    def fields(self, t):
        return t.e if t.k == 'struct' else self.structs[t.n]

    def offset(self, t, i):
        off = 0
        for k, e in enumerate(self.fields(t)):
            a = self.alignof(e)
            off = (off + a - 1) // a * a
            if k == i:
                return off, e
            off += self.sizeof(e)
        raise AnalysisBroken('field %d of %r' % (i, t))

    # ---- parsing
    def _parse(self, text):
        lines = text.split('\n')
        i, n = 0, len(lines)
        pend = []
        while i < n:
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                nm, rest = l.split(' = type ', 1)
                p = P(tokenize(rest), self)
                if p.peek() == 'opaque':
                    self.structs[nm[1:].strip('"')] = []
                else:
                    if p.accept('<'):
                        pass
                    t = p.type()
                    self.structs[nm[1:].strip('"')] = t.e
            elif l.startswith('@'):
                pend.append(l)
            elif l.startswith('define '):
                body = []
                i += 1
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                self._func(l, body)
            elif l.startswith('declare '):
                m = re.search(r'@([-\w.$]+|"[^"]*")\(', l)
                self.decls[m.group(1)] = l
            elif l.startswith('!'):
                m = re.match(r'!(\d+) = (.*)$', l)
                if m:
                    self.md[int(m.group(1))] = m.group(2)
            i += 1
        for l in pend:
            m = re.match(r'@([-\w.$]+|"[^"]*") = (.*)$', l)
            rest = m.group(2)
            m2 = re.search(r'\b(constant|global)\b', rest)
            if not m2:
                continue
            p = P(tokenize(rest[m2.end():].split(', !dbg')[0]), self)
            try:
                t = p.type()
                v = p.value(t) if 'external' not in rest[:m2.start()] else None
            except AnalysisBroken:
                t, v = None, None
            self.globals[m.group(1).strip('"')] = (m2.group(1), t, v, rest)
        for f in self.funcs.values():
            if f.dbg is not None:
                s = self.md.get(f.dbg, '')
                m = re.search(r'\bline: (\d+)', s)
                f.line = int(m.group(1)) if m else None
                f.file = self._file(f.dbg)

    def _file(self, mdid, depth=0):
        s = self.md.get(mdid, '')
        m = re.search(r'\bfile: !(\d+)', s)
        if m:
            fs = self.md.get(int(m.group(1)), '')
            m2 = re.search(r'filename: "([^"]*)"', fs)
            if m2:
                fn = m2.group(1)
                return fn[fn.rfind('tommyds/'):] if 'tommyds/' in fn else fn
        m = re.search(r'\bscope: !(\d+)', s)
        if m and depth < 30:
            return self._file(int(m.group(1)), depth + 1)
        return '?'

    def loc(self, ins):
        """file:line of an instruction."""
        if ins is None or ins.dbg is None:
            return '?'
        s = self.md.get(ins.dbg, '')
        m = re.search(r'line: (\d+)', s)
        sc = re.search(r'scope: !(\d+)', s)
        return '%s:%s' % (self._file(int(sc.group(1))) if sc else '?', m.group(1) if m else '?')

    def struct_fields(self, name):
        """{field: (offset, size)} of struct `name` from the debug information."""
        for s in self.md.values():
            if 'DICompositeType(tag: DW_TAG_structure_type, name: "%s"' % name in s:
                m = re.search(r'elements: !(\d+)', s)
                if not m:
                    continue
                out = {}
                for e in re.findall(r'!(\d+)', self.md[int(m.group(1))]):
                    es = self.md[int(e)]
                    nm = re.search(r'name: "([^"]*)"', es)
                    off = re.search(r'offset: (\d+)', es)
                    sz = re.search(r'\bsize: (\d+)', es)
                    out[nm.group(1)] = ((int(off.group(1)) if off else 0) // 8, (int(sz.group(1)) if sz else 0) // 8)
                m = re.search(r'\bsize: (\d+)', s)
                out['__size__'] = (int(m.group(1)) // 8, 0)
                return out
        raise AnalysisBroken('struct %s not found in the debug information' % name)

    def _func(self, head, body):
        m = re.search(r'!dbg !(\d+)', head)
        h = head[:head.rfind('{')]
        dbg = int(m.group(1)) if m else None
        nm = re.search(r'@([-\w.$]+|"[^"]*")\(', h)
        f = Func(nm.group(1).strip('"'))
        f.dbg = dbg
        f.internal = ' internal ' in head or ' linkonce' in head
        pre = h[len('define '):nm.start()]
        toks = [t for t in tokenize(pre) if t not in ('dso_local', 'internal', 'private', 'linkonce_odr', 'hidden', 'noundef', 'weak', 'mustprogress')]
        p = P(toks, self)
        p.attrs()
        f.ret = p.type()
        d, j = 0, nm.end() - 1
        for j in range(nm.end() - 1, len(h)):
            d += (h[j] == '(') - (h[j] == ')')
            if d == 0:
                break
        p = P(tokenize(h[nm.end():j]), self)
        while p.peek() is not None:
            if p.accept('...'):
                break
            t = p.type()
            p.attrs()
            x = p.next()
            f.params.append((t, x[1:].strip('"')))
            p.accept(',')
        cur = None
        k = 0
        while k < len(body):
            l = body[k]
            k += 1
            if not l.strip():
                continue
            m = re.match(r'^([-\w.$]+|"[^"]*"):', l)
            if m:
                cur = Block(m.group(1).strip('"'))
                f.blocks[cur.label] = cur
                f.order.append(cur.label)
                continue
            if cur is None:
                cur = Block('entry')
                f.blocks['entry'] = cur
                f.order.append('entry')
            s = l.strip()
            if s.startswith('switch') and s.endswith('['):
                while not body[k].strip().startswith(']'):
                    s += ' ' + body[k].strip()
                    k += 1
                s += ' ' + body[k].strip()
                k += 1
            if 'llvm.dbg.' in s or s.startswith('#dbg'):
                continue
            cur.ins.append(self._instr(s))
        self.funcs[f.name] = f

    def _instr(self, s):
        text = s
        dbg = None
        m = re.search(r', !dbg !(\d+)', s)
        if m:
            dbg = int(m.group(1))
        s = re.sub(r'(, ![-\w.]+ !\d+)+\s*$', '', s)
        p = P(tokenize(s), self)
        res = None
        if p.peek(1) == '=':
            res = p.next()[1:].strip('"')
            p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        I = Instr(op, res)
        if op in ('add', 'sub', 'mul', 'shl', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'lshr', 'ashr'):
            fl = set()
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
                fl.add(p.next())
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            I.ty, I.a, I.x = t, [a, b], fl
        elif op == 'icmp':
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            I.ty, I.a, I.x = t, [a, b], pred
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            t = p.type()
            a = p.value(t)
            I.x = t
            I.a = [a]
            I.ty = t
            if p.accept('to'):
                I.ty = p.type()
        elif op == 'load':
            p.accept('volatile')
            t = p.type()
            p.expect(',')
            p.type()
            I.ty, I.a = t, [p.value(PTR)]
        elif op == 'store':
            p.accept('volatile')
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.type()
            I.ty, I.a = t, [v, p.value(PTR)]
        elif op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nsw', 'nusw'):
                p.next()
            st = p.type()
            p.expect(',')
            args = []
            while True:
                t = p.type()
                args.append((t, p.value(t)))
                if not p.accept(','):
                    break
            I.ty, I.x, I.a = PTR, st, args
        elif op == 'alloca':
            I.x = p.type()
            I.ty = PTR
            if p.accept(',') and p.peek() != 'align':
                t = p.type()
                I.a = [p.value(t)]
        elif op == 'phi':
            t = p.type()
            inc = []
            while p.accept('['):
                v = p.value(t)
                p.expect(',')
                b = p.next()[1:].strip('"')
                p.expect(']')
                inc.append((v, b))
                p.accept(',')
            I.ty, I.a = t, inc
        elif op == 'select':
            t0 = p.type()
            c = p.value(t0)
            p.expect(',')
            t = p.type()
            a = p.value(t)
            p.expect(',')
            p.type()
            b = p.value(t)
            I.ty, I.a = t, [c, a, b]
        elif op == 'call':
            while p.peek() in ('fast', 'ccc', 'fastcc'):
                p.next()
            p.attrs()
            I.ty = p.type()
            callee = p.value(PTR)
            p.expect('(')
            args = []
            while not p.accept(')'):
                t = p.type()
                p.attrs()
                if t.k == 'metadata':
                    p.value(t)
                    args.append((t, ('meta',)))
                else:
                    args.append((t, p.value(t)))
                p.accept(',')
            I.x = callee
            I.a = args
        elif op == 'br':
            if p.accept('label'):
                I.x = [p.next()[1:].strip('"')]
            else:
                t = p.type()
                I.a = [p.value(t)]
                p.expect(',')
                p.expect('label')
                x = p.next()[1:].strip('"')
                p.expect(',')
                p.expect('label')
                I.x = [x, p.next()[1:].strip('"')]
        elif op == 'switch':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.expect('label')
            d = p.next()[1:].strip('"')
            p.expect('[')
            cs = []
            while not p.accept(']'):
                tt = p.type()
                c = p.value(tt)
                p.expect(',')
                p.expect('label')
                cs.append((c[1], p.next()[1:].strip('"')))
            I.ty, I.a, I.x = t, [v], (d, cs)
        elif op == 'ret':
            t = p.type()
            I.ty = t
            I.a = [] if t.k == 'void' else [p.value(t)]
        elif op == 'unreachable':
            pass
        elif op in ('extractvalue', 'insertvalue'):
            t = p.type()
            v = p.value(t)
            I.ty = t
            I.a = [v]
            if op == 'insertvalue':
                p.expect(',')
                t2 = p.type()
                I.a.append(p.value(t2))
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            I.x = idx
        else:
            I.op = 'unsupported'
            I.x = text
        I.dbg = dbg
        I.text = text
        return I

    def _cfg(self):
        for f in self.funcs.values():
            for lb in f.order:
                b = f.blocks[lb]
                t = b.ins[-1]
                if t.op == 'br':
                    b.succ = list(dict.fromkeys(t.x))
                elif t.op == 'switch':
                    b.succ = list(dict.fromkeys([t.x[0]] + [l for _, l in t.x[1]]))
                else:
                    b.succ = []
                for k, ins in enumerate(b.ins):
                    ins.blk, ins.idx = lb, k
            for lb in f.order:
                for s in f.blocks[lb].succ:
                    f.blocks[s].pred.append(lb)
            self._loops(f)
            self._live(f)

    def _loops(self, f):
        # reverse postorder, dominators, natural loops
        seen, post = set(), []
        st = [(f.order[0], iter(f.blocks[f.order[0]].succ))]
        seen.add(f.order[0])
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(f.blocks[s].succ)))
                    break
            else:
                post.append(b)
                st.pop()
        rpo = post[::-1]
        f.rpo = rpo
        f.rpon = {b: i for i, b in enumerate(rpo)}
        idom = {rpo[0]: rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [q for q in f.blocks[b].pred if q in idom]
                n = ps[0]
                for q in ps[1:]:
                    x, y = q, n
                    while x != y:
                        while f.rpon[x] > f.rpon[y]:
                            x = idom[x]
                        while f.rpon[y] > f.rpon[x]:
                            y = idom[y]
                    n = x
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True
        f.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == idom[b]:
                    return False
                b = idom[b]
        f.loops = {}
        for b in rpo:
            for s in f.blocks[b].succ:
                if s in f.rpon and dom(s, b):
                    body = f.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st += [q for q in f.blocks[x].pred if q in f.rpon]
        f.irreducible = any(f.rpon[s] <= f.rpon[b] and s not in f.loops for b in rpo for s in f.blocks[b].succ)

    @staticmethod
    def uses(ins):
        out = []

        def v(x):
            if isinstance(x, tuple):
                if x and x[0] == 'reg':
                    out.append(x[1])
                elif x and x[0] == 'cexpr':
                    for _, y in x[3]:
                        v(y)
        if ins.op == 'phi':
            return out
        for a in ins.a:
            if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], Ty):
                v(a[1])
            else:
                v(a)
        if ins.op == 'call':
            v(ins.x)
        return out

    def _live(self, f):
        """f.live_in[label]: registers live at block entry (phi results of the block included)."""
        use, dfn = {}, {}
        for lb in f.rpo:
            u, d = set(), set()
            for ins in f.blocks[lb].ins:
                for x in self.uses(ins):
                    if x not in d:
                        u.add(x)
                if ins.res:
                    d.add(ins.res)
            use[lb], dfn[lb] = u, d
        live = {lb: set() for lb in f.rpo}
        ch = True
        while ch:
            ch = False
            for lb in reversed(f.rpo):
                out = set()
                for s in f.blocks[lb].succ:
                    phis = {i.res for i in f.blocks[s].ins if i.op == 'phi'}
                    out |= live[s] - phis
                    for i in f.blocks[s].ins:
                        if i.op == 'phi':
                            for v, b in i.a:
                                if b == lb and v[0] == 'reg':
                                    out.add(v[1])
                n = use[lb] | (out - dfn[lb])
                if n != live[lb]:
                    live[lb] = n
                    ch = True
        f.live_in = {}
        for lb in f.rpo:
            # a phi result is live in when used later
            phis = {i.res for i in f.blocks[lb].ins if i.op == 'phi'}
            usedl = set()
            for i in f.blocks[lb].ins:
                usedl |= set(self.uses(i))
            out = set()
            for s in f.blocks[lb].succ:
                ps = {i.res for i in f.blocks[s].ins if i.op == 'phi'}
                out |= live[s] - ps
                for i in f.blocks[s].ins:
                    if i.op == 'phi':
                        for v, b in i.a:
                            if b == lb and v[0] == 'reg':
                                out.add(v[1])
            f.live_in[lb] = live[lb] | {q for q in phis if q in usedl or q in out}
        f.uses_of = {}


_cache = {}


def load(defines=(), flags=(), ptrbits=64, **kw):
    key = (tuple(defines), tuple(flags), ptrbits, tuple(sorted(kw.items())))
    if key not in _cache:
        fl = list(flags)
        if ptrbits == 32:
            fl.append('-m32')
        _cache[key] = Module(build(defines, fl, **kw), ptrbits)
    return _cache[key]


if __name__ == '__main__':
    import sys
    for bits in (64, 32):
        m = load(ptrbits=bits)
        print(len(m.funcs), sorted(m.decls))
        for f in m.funcs.values():
            for b in f.blocks.values():
                for i in b.ins:
                    if i.op == 'unsupported':
                        print('UNSUPPORTED', f.name, i.x)
            if f.irreducible:
                print('irreducible', f.name)
        print(m.struct_fields('tommy_hashlin_struct'))
    print(m.loc(m.funcs['tommy_hashlin_insert'].blocks['entry'].ins[3]))

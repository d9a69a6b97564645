"""Reader for textual LLVM IR (clang 18, opaque pointers).  Functions are kept
as text and parsed when first executed."""
import re, struct

class ParseError(Exception):
    pass

TOK = re.compile(r'''
   c"(?P<cs>(?:[^"\\]|\\.)*)"
 | (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<lv>%(?:"[^"]*"|[-\w.$]+))
 | (?P<gv>@(?:"[^"]*"|[-\w.$]+))
 | (?P<md>![\w.]*(?:"[^"]*")?)
 | (?P<at>\#\d+)
 | (?P<hx>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?)
 | (?P<w>[A-Za-z_$][\w.$]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*|:])
''', re.X)

def tokenize(s):
    out = []
    for m in TOK.finditer(s):
        k = m.lastgroup
        out.append((k, m.group(k)))
    return out

# types: ('i',n) 'double' 'float' 'ptr' 'void' ('a',n,t) ('s',(t..),packed) ('n',name) ('v',n,t) 'label' 'md'
class Types:
    def __init__(self):
        self.named = {}
        self._size = {}
    def resolve(self, t):
        while t.__class__ is tuple and t[0] == 'n':
            r = self.named.get(t[1])
            if r is None: raise ParseError("opaque type " + t[1])
            t = r
        return t
    def size(self, t):
        r = self._size.get(t)
        if r is None:
            r = self._size[t] = self._sz(t)
        return r
    def _sz(self, t):
        t = self.resolve(t)
        if t == 'double' or t == 'ptr': return 8
        if t == 'float': return 4
        if t == 'x86_fp80': return 16
        if t[0] == 'i':
            n = t[1]
            for b in (8, 16, 32, 64, 128):
                if n <= b: return b // 8
        if t[0] == 'a': return t[1] * self.size(t[2])
        if t[0] == 'v': return t[1] * self.size(t[2])
        if t[0] == 's':
            o = self.offsets(t)
            return o[-1]
        raise ParseError("size of %r" % (t,))
    def align(self, t):
        t = self.resolve(t)
        if t[0] == 's':
            if t[2]: return 1
            return max([self.align(x) for x in t[1]] or [1])
        if t[0] == 'a': return self.align(t[2])
        return min(16, self.size(t))
    def offsets(self, t):
        o = 0; r = []
        for x in t[1]:
            if not t[2]:
                a = self.align(x)
                o = (o + a - 1) // a * a
            r.append(o)
            o += self.size(x)
        if not t[2]:
            a = self.align(t)
            o = (o + a - 1) // a * a
        r.append(o)
        return r

SKIPATTR = set('''noundef nonnull noalias nocapture readonly readnone writeonly nofree signext zeroext
inreg returned immarg swiftself nest noreturn nounwind dso_local local_unnamed_addr unnamed_addr
tail musttail notail fastcc ccc coldcc nuw nsw exact inbounds volatile fast nnan ninf nsz arcp contract afn
reassoc disjoint nneg internal private linkonce_odr weak_odr linkonce weak common external hidden protected
default available_externally appending thread_local immutable cold hot mustprogress dead_on_unwind writable nocallback nosync willreturn allocptr allocalign'''.split())

class Parser:
    def __init__(self, toks, types):
        self.t = toks; self.i = 0; self.types = types
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)
    def next(self):
        r = self.t[self.i]; self.i += 1; return r
    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v and self.t[self.i][0] in ('p', 'w', 'dots'):
            self.i += 1; return True
        return False
    def expect(self, v):
        if not self.accept(v):
            raise ParseError("expected %s at %r" % (v, self.t[max(0, self.i - 3):self.i + 5]))
    def type(self):
        k, v = self.next()
        if k == 'w':
            if v == 'double': r = 'double'
            elif v == 'float': r = 'float'
            elif v == 'ptr': r = 'ptr'
            elif v == 'void': r = 'void'
            elif v == 'label': r = 'label'
            elif v == 'metadata': r = 'md'
            elif v == 'x86_fp80': r = 'x86_fp80'
            elif v == 'token': r = 'token'
            elif v == 'opaque': r = ('opaque',)
            elif re.match(r'i\d+$', v): r = ('i', int(v[1:]))
            else: raise ParseError("type? " + v)
        elif k == 'lv': r = ('n', v)
        elif v == '[':
            n = int(self.next()[1]); self.expect('x'); t = self.type(); self.expect(']')
            r = ('a', n, t)
        elif v == '{':
            r = ('s', self._fields('}'), False)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next(); f = self._fields('}'); self.expect('>')
                r = ('s', f, True)
            else:
                n = int(self.next()[1]); self.expect('x'); t = self.type(); self.expect('>')
                r = ('v', n, t)
        else:
            raise ParseError("type? %r" % (self.t[self.i - 1:self.i + 4],))
        # function types: T (args) -- only in calls
        if self.peek()[1] == '(' and self.peek()[0] == 'p' and r != 'md':
            j = self.i; d = 0
            while True:
                if self.t[j][1] == '(' and self.t[j][0] == 'p': d += 1
                if self.t[j][1] == ')' and self.t[j][0] == 'p':
                    d -= 1
                    if d == 0: break
                j += 1
            # it is a function type only if another operand follows directly
            nx = self.t[j + 1] if j + 1 < len(self.t) else (None, None)
            if nx[0] in ('gv', 'lv'):
                self.i = j + 1
        return r
    def _fields(self, end):
        f = []
        if self.accept(end): return ()
        while True:
            f.append(self.type())
            if self.accept(end): return tuple(f)
            self.expect(',')
    def attrs(self):
        while True:
            k, v = self.peek()
            if k == 'w' and v in SKIPATTR: self.i += 1
            elif k == 'at': self.i += 1
            elif k == 'w' and v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'allocsize', 'memory', 'captures', 'range', 'inalloca', 'byref', 'preallocated', 'elementtype', 'alignstack', 'vscale_range'):
                self.i += 1
                if self.peek()[1] == '(':
                    d = 0
                    while True:
                        x = self.next()[1]
                        if x == '(': d += 1
                        if x == ')':
                            d -= 1
                            if d == 0: break
                elif v == 'align':
                    self.i += 1
            elif k == 'str':
                self.i += 1
                if self.peek()[1] == '=': self.i += 2
            else: return
    def value(self, ty):
        """-> ('l',name) ('g',name) ('k',python value) ('agg',..) ('undef',) ('cx',op,..)"""
        self.attrs()
        k, v = self.next()
        if k == 'lv': return ('l', v)
        if k == 'gv': return ('g', v)
        if k == 'num':
            if ty == 'double' or ty == 'float': return ('k', float(v))
            if ty[0] == 'i': return ('k', int(v) & ((1 << ty[1]) - 1))
            raise ParseError("number for %r" % (ty,))
        if k == 'hx':
            if ty in ('double', 'float'):
                return ('k', struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0])
            if ty == 'x86_fp80': return ('k', ('x87', v))
            raise ParseError("hex for %r" % (ty,))
        if k == 'cs':
            b = bytearray(); i = 0
            while i < len(v):
                if v[i] == '\\':
                    if v[i + 1] == '\\': b.append(92); i += 2
                    else: b.append(int(v[i + 1:i + 3], 16)); i += 3
                else: b.append(ord(v[i])); i += 1
            return ('str', bytes(b))
        if k == 'w':
            if v == 'null': return ('k', 0)
            if v == 'true': return ('k', True)
            if v == 'false': return ('k', False)
            if v in ('undef', 'poison'): return ('undef',)
            if v == 'zeroinitializer': return ('zero',)
            if v == 'none': return ('k', 0)
            if v == 'getelementptr':
                self.attrs()
                self.expect('('); t = self.type(); self.expect(',')
                ops = []
                while True:
                    self.attrs()
                    ot = self.type(); ops.append((ot, self.value(ot)))
                    if self.accept(')'): break
                    self.expect(',')
                return ('cx', 'gep', t, ops)
            if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.expect('('); ot = self.type(); o = self.value(ot); self.expect('to'); t = self.type(); self.expect(')')
                return ('cx', v, ot, o, t)
            if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr', 'ashr'):
                self.attrs(); self.expect('('); ot = self.type(); a = self.value(ot); self.expect(','); ot = self.type(); b = self.value(ot); self.expect(')')
                return ('cx', v, ot, a, b)
            if v == 'icmp':
                p = self.next()[1]
                self.expect('('); ot = self.type(); a = self.value(ot); self.expect(','); ot = self.type(); b = self.value(ot); self.expect(')')
                return ('cx', 'icmp', p, ot, a, b)
            if v == 'blockaddress': raise ParseError("blockaddress")
        if v == '[' or v == '{' or v == '<':
            end = {'[': ']', '{': '}', '<': '>'}[v]
            packed = False
            if v == '<' and self.peek()[1] == '{':
                self.next(); end = '}'; packed = True
            xs = []
            if not self.accept(end):
                while True:
                    t = self.type(); xs.append((t, self.value(t)))
                    if self.accept(end): break
                    self.expect(',')
            if packed: self.expect('>')
            return ('agg', xs)
        raise ParseError("value? %r of %r near %r" % (v, ty, self.t[max(0, self.i - 4):self.i + 5]))

MDSUF = re.compile(r',\s*!.*$')

class Func:
    __slots__ = ("name", "ret", "params", "lines", "vararg", "blocks", "decl")

class Module:
    def __init__(self, text):
        self.types = Types()
        self.funcs = {}
        self.globals = {}     # name -> (type, init value or None, const, tls)
        self.aliases = {}
        lines = text.split('\n')
        i = 0; n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define '):
                j = i + 1
                while lines[j] != '}': j += 1
                self._header(ln, lines[i + 1:j])
                i = j + 1; continue
            if ln.startswith('declare '):
                self._header(ln, None)
            elif ln.startswith('%'):
                m = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = type (.*)$', ln)
                if m:
                    t = Parser(tokenize(m.group(2)), self.types).type()
                    if t[0] != 'opaque': self.types.named[m.group(1)] = t
            elif ln.startswith('@'):
                self._global(ln)
            i += 1
    def _header(self, ln, body):
        if body is not None: ln = ln.rstrip('{ ')
        f = Func()
        f.lines = body; f.blocks = None; f.decl = body is None
        toks = tokenize(ln)
        p = Parser(toks, self.types); p.next()
        while True:
            p.attrs()
            if p.peek()[0] == 'w' and p.peek()[1] in ('comdat',): p.next(); continue
            if p.peek()[0] == 'md': p.next(); continue
            break
        f.ret = p.type()
        p.attrs()
        f.name = p.next()[1]
        p.expect('(')
        f.params = []; f.vararg = False
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    f.vararg = True; p.expect(')'); break
                t = p.type(); p.attrs()
                nm = None
                if p.peek()[0] == 'lv': nm = p.next()[1]
                else: nm = '%' + str(len(f.params))
                f.params.append((t, nm))
                if p.accept(')'): break
                p.expect(',')
        if f.name not in self.funcs or self.funcs[f.name].decl:
            self.funcs[f.name] = f
    def _global(self, ln):
        ln = MDSUF.sub('', ln)
        toks = tokenize(ln)
        p = Parser(toks, self.types)
        name = p.next()[1]; p.expect('=')
        ext = False; tls = False; const = False; alias = False
        while True:
            k, v = p.peek()
            if k == 'w' and v in ('external', 'extern_weak'): ext = True; p.next(); continue
            if k == 'w' and v == 'thread_local':
                tls = True; p.next()
                if p.peek()[1] == '(':
                    while p.next()[1] != ')': pass
                continue
            if k == 'w' and v in SKIPATTR: p.next(); continue
            if k == 'w' and v == 'global': p.next(); break
            if k == 'w' and v == 'constant': const = True; p.next(); break
            if k == 'w' and v == 'alias': alias = True; p.next(); break
            raise ParseError("global? " + ln[:200])
        if alias:
            self.aliases[name] = ('g', [v for k, v in toks if k == 'gv'][-1])
            return
        t = p.type()
        init = None
        if not ext:
            init = p.value(t)
        self.globals[name] = (t, init, const, tls)

LABEL = re.compile(r'^(?:"([^"]*)"|([-\w.$]+)):')

def split_blocks(f):
    """-> list of (label, [instruction text])"""
    # the entry block has the next unnamed number unless labelled
    cur = None; out = []
    buf = None
    for ln in f.lines:
        s = ln.strip()
        if not s or s[0] == ';': continue
        m = LABEL.match(ln)
        if m:
            cur = ('%' + (m.group(1) or m.group(2)), []); out.append(cur); continue
        if cur is None:
            k = sum(1 for _, nm in f.params if re.match(r'%\d+$', nm))
            cur = ('%' + str(k), []); out.append(cur)
        # continuation lines of invoke / switch / landingpad
        ins = cur[1]
        if ins and (s.startswith('to label') or s.startswith('catch ') or s.startswith('cleanup') or s.startswith('filter ')
                    or (ins[-1].lstrip().startswith('switch ') and not ins[-1].rstrip().endswith(']'))):
            ins[-1] = ins[-1] + ' ' + MDSUF.sub('', s)
        else:
            if s.startswith('switch ') and s.endswith('['):
                ins.append(s)
            else:
                ins.append(MDSUF.sub('', s))
    return out

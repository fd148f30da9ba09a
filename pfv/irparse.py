"""Parser for the textual LLVM 18 IR that clang emits for the real sources (opaque pointers).

Functions are parsed lazily: the module keeps the raw lines and builds instructions on first use."""
import re

TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<loc>[%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 |(?P<meta>!(?:[-a-zA-Z$._0-9]+|\{[^}]*\})?)
 |(?P<attr>\#\d+)
 |(?P<num>-?\d+\.\d+(?:[eE][-+]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 |(?P<dots>\.\.\.)
 |(?P<word>[-a-zA-Z_$.][-a-zA-Z_$.0-9]*)
 |(?P<p>[\[\](){}<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        if s[i] in ' \t':
            i += 1
            continue
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m or m.end() == i:
            raise SyntaxError('tok: %r at %d' % (s, i))
        out.append(m.group(m.lastgroup))
        i = m.end()
    return out


# ---- types -------------------------------------------------------------------------------
class Ty:
    __slots__ = ('k', 'a', 'b')

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.a
        if self.k == 'arr':
            return '[%d x %r]' % (self.a, self.b)
        if self.k == 'vec':
            return '<%d x %r>' % (self.a, self.b)
        if self.k == 'named':
            return self.a
        if self.k == 'struct':
            return '{%s}' % ','.join(map(repr, self.a))
        return self.k


PTR = Ty('ptr')
VOID = Ty('void')
I1, I8, I16, I32, I64 = (Ty('int', n) for n in (1, 8, 16, 32, 64))
INTS = {1: I1, 8: I8, 16: I16, 32: I32, 64: I64}

PARAM_ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'nocapture', 'readonly', 'readnone', 'writeonly',
               'returned', 'inreg', 'noalias', 'immarg', 'nest', 'swiftself', 'dead_on_unwind', 'writable',
               'allocptr', 'allocalign', 'nofree', 'noalias'}


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def acc(self, w):
        if self.i < len(self.t) and self.t[self.i] == w:
            self.i += 1
            return True
        return False

    def exp(self, w):
        if not self.acc(w):
            raise SyntaxError('expected %r at %r in %r' % (w, self.t[self.i:self.i + 5], self.t[:40]))

    def type(self):
        t = self.next()
        if t == 'ptr':
            if self.peek() == 'addrspace':
                self.i += 4
            return PTR
        if t == 'void':
            return VOID
        if t[0] == 'i' and t[1:].isdigit():
            n = int(t[1:])
            return INTS.get(n) or Ty('int', n)
        if t in ('float', 'double', 'x86_fp80', 'half', 'fp128', 'bfloat'):
            return Ty(t)
        if t in ('metadata', 'token', 'label'):
            return Ty(t)
        if t == '[':
            n = int(self.next())
            self.exp('x')
            e = self.type()
            self.exp(']')
            return Ty('arr', n, e)
        if t == '<':
            if self.peek() == '{':
                self.next()
                el = []
                while not self.acc('}'):
                    el.append(self.type())
                    self.acc(',')
                self.exp('>')
                return Ty('struct', el, True)
            n = int(self.next())
            self.exp('x')
            e = self.type()
            self.exp('>')
            return Ty('vec', n, e)
        if t == '{':
            el = []
            while not self.acc('}'):
                el.append(self.type())
                self.acc(',')
            return Ty('struct', el, False)
        if t[0] == '%':
            return Ty('named', t)
        raise SyntaxError('type %r in %r' % (t, self.t[:30]))

    def attrs(self):
        """skip parameter attributes"""
        while True:
            w = self.peek()
            if w in PARAM_ATTRS:
                self.next()
            elif w in ('align', ):
                self.next()
                if self.acc('('):
                    self.next()
                    self.exp(')')
                else:
                    self.next()
            elif w in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'byref',
                       'inalloca', 'preallocated', 'nofpclass', 'captures', 'range', 'memory'):
                self.next()
                self.paren()
            else:
                return

    def paren(self):
        self.exp('(')
        d = 1
        while d:
            t = self.next()
            if t == '(':
                d += 1
            elif t == ')':
                d -= 1

    def value(self, ty):
        """operand: ('l',name) local | ('g',name) | ('c',int) | ('null',) | ('undef',) | ('zero',) | ('fp',txt)
        | ('vec',[..]) | ('agg',[..]) | ('str',bytes) | ('gep',srcty,[ops])..."""
        t = self.next()
        c = t[0]
        if c == '%':
            return ('l', t)
        if c == '@':
            return ('g', t)
        if t == 'null':
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'zeroinitializer':
            return ('zero',)
        if t == 'true':
            return ('c', 1)
        if t == 'false':
            return ('c', 0)
        if t == 'none':
            return ('undef',)
        if c == 'c' and t.startswith('c"'):
            return ('str', unesc(t[2:-1]))
        if t == '<':
            if self.peek() == '{':
                self.next()
                el = self.tvlist('}')
                self.exp('>')
                return ('agg', el)
            return ('vec', self.tvlist('>'))
        if t == '[':
            return ('agg', self.tvlist(']'))
        if t == '{':
            return ('agg', self.tvlist('}'))
        if t in ('getelementptr',):
            self.acc('inbounds')
            self.exp('(')
            st = self.type()
            self.exp(',')
            ops = self.tvlist(')')
            return ('gep', st, ops)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.exp('(')
            st = self.type()
            v = self.value(st)
            self.exp('to')
            tt = self.type()
            self.exp(')')
            return ('cast', t, st, v, tt)
        if t in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.exp('(')
            ops = self.tvlist(')')
            return ('binop', t, ops)
        if t in ('icmp',):
            pr = self.next()
            self.exp('(')
            ops = self.tvlist(')')
            return ('icmpc', pr, ops)
        if t in ('dso_local_equivalent', 'no_cfi'):
            return ('g', self.next())
        if t == 'blockaddress':
            self.paren()
            return ('undef',)
        if re.fullmatch(r'-?\d+', t):
            if ty is not None and ty.k in ('float', 'double'):
                return ('fp', t)
            return ('c', int(t))
        return ('fp', t)

    def tvlist(self, end):
        out = []
        while not self.acc(end):
            self.acc('inrange')
            ty = self.type()
            self.attrs()
            out.append((ty, self.value(ty)))
            self.acc(',')
        return out


def unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out += s[i].encode()
            i += 1
    return bytes(out)


class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'b', 'c', 'x', 'txt')

    def __init__(self, op, res=None, ty=None, a=None, b=None, c=None, x=None, txt=None):
        self.op, self.res, self.ty, self.a, self.b, self.c, self.x, self.txt = op, res, ty, a, b, c, x, txt

    def __repr__(self):
        return '<%s>' % self.txt


class Func:
    def __init__(self, mod, name, header, lines):
        self.mod, self.name, self.header, self.lines = mod, name, header, lines
        self._parsed = False
        self.internal = ' internal ' in header or ' private ' in header

    def parse(self):
        if self._parsed:
            return self
        self._parsed = True
        p = P(tokenize(self.header[self.header.index('define') + 6:].rsplit('{', 1)[0].replace('personality', ' personality')), self.mod)
        # skip linkage etc until type
        while True:
            w = p.peek()
            if w in ('internal', 'private', 'linkonce_odr', 'weak_odr', 'linkonce', 'weak', 'external', 'dso_local',
                     'hidden', 'protected', 'available_externally', 'fastcc', 'ccc', 'unnamed_addr', 'local_unnamed_addr',
                     'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'coldcc', 'cc', 'appending', 'comdat', 'dllexport'):
                p.next()
            elif w in ('align', 'dereferenceable', 'dereferenceable_or_null', 'range', 'nofpclass'):
                p.attrs()
            else:
                break
        self.rty = p.type()
        assert p.next() == '@' + self.name or True
        p.exp('(')
        self.params = []
        self.vararg = False
        while not p.acc(')'):
            if p.acc('...'):
                self.vararg = True
                continue
            ty = p.type()
            # record sret/byval
            j = p.i
            p.attrs()
            at = p.t[j:p.i]
            nm = p.next()
            self.params.append((ty, nm, 'sret' in at, 'byval' in at))
            p.acc(',')
        self.blocks = {}
        self.order = []
        cur = None
        first = True
        acc = None
        for ln in self.lines:
            s = ln.strip()
            if not s or s[0] == ';':
                continue
            if acc is not None:
                acc += ' ' + s
                if s.startswith(']'):
                    cur.append(self.ins(acc))
                    acc = None
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):(\s|$)', ln)
            if m:
                lab = '%' + m.group(1)
                cur = []
                self.blocks[lab] = cur
                self.order.append(lab)
                first = False
                continue
            if first:
                cur = []
                lab = '%0' if not self.params else '%entry0'
                self.blocks[lab] = cur
                self.order.append(lab)
                first = False
            if s.startswith('switch') and not s.rstrip().endswith(']'):
                acc = s
                continue
            if re.match(r'(to label|catch |cleanup|filter )', s):
                # continuation of invoke / landingpad
                prev = cur.pop()
                cur.append(self.ins(prev.txt + ' ' + s))
                continue
            cur.append(self.ins(s))
        self.entry = self.order[0]
        return self

    def ins(self, s):
        m = re.search(r',?\s+!(?:llvm|srcloc|tbaa|noalias|alias|prof|range|nosanitize|heapallocsite|nonnull|noundef|align|dereferenceable|annotation|dbg)', s)
        txt = s
        if m:
            s = s[:m.start()]
        toks = tokenize(s)
        p = P(toks, self.mod)
        res = None
        if p.peek(1) == '=':
            res = p.next()
            p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        try:
            return self._ins(op, res, p, txt)
        except (SyntaxError, IndexError) as e:
            return Ins('unsupported', res, None, str(e), txt=txt)

    def _ins(self, op, res, p, txt):
        if op == 'alloca':
            ty = p.type()
            n = None
            if p.acc(','):
                if p.peek() != 'align':
                    nty = p.type()
                    n = (nty, p.value(nty))
            return Ins('alloca', res, ty, n, txt=txt)
        if op == 'load':
            if p.peek() == 'atomic':
                p.next()
            if p.peek() == 'volatile':
                p.next()
            ty = p.type()
            p.exp(',')
            p.type()
            return Ins('load', res, ty, p.value(PTR), txt=txt)
        if op == 'store':
            if p.peek() == 'volatile':
                p.next()
            ty = p.type()
            v = p.value(ty)
            p.exp(',')
            p.type()
            return Ins('store', None, ty, v, p.value(PTR), txt=txt)
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            st = p.type()
            p.exp(',')
            ops = []
            while True:
                ty = p.type()
                ops.append((ty, p.value(ty)))
                if not p.acc(','):
                    break
            return Ins('gep', res, st, ops, txt=txt)
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = set()
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'contract', 'reassoc', 'arcp', 'afn'):
                fl.add(p.next())
            ty = p.type()
            a = p.value(ty)
            p.exp(',')
            b = p.value(ty)
            return Ins('bin', res, ty, a, b, op, fl, txt=txt)
        if op == 'fneg':
            ty = p.type()
            return Ins('fneg', res, ty, p.value(ty), txt=txt)
        if op in ('icmp', 'fcmp'):
            while p.peek() in ('samesign', 'fast', 'nnan', 'ninf', 'nsz'):
                p.next()
            pr = p.next()
            ty = p.type()
            a = p.value(ty)
            p.exp(',')
            b = p.value(ty)
            return Ins(op, res, ty, a, b, pr, txt=txt)
        if op in ('sext', 'zext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            ty = p.type()
            v = p.value(ty)
            p.exp('to')
            t2 = p.type()
            return Ins('cast', res, ty, v, t2, op, txt=txt)
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                return Ins('br', None, None, p.next(), txt=txt)
            ty = p.type()
            c = p.value(ty)
            p.exp(',')
            p.exp('label')
            a = p.next()
            p.exp(',')
            p.exp('label')
            b = p.next()
            return Ins('cbr', None, None, c, a, b, txt=txt)
        if op == 'switch':
            ty = p.type()
            v = p.value(ty)
            p.exp(',')
            p.exp('label')
            d = p.next()
            p.exp('[')
            cs = []
            while not p.acc(']'):
                t2 = p.type()
                cv = p.value(t2)
                p.exp(',')
                p.exp('label')
                cs.append((cv[1], p.next()))
            return Ins('switch', None, ty, v, d, cs, txt=txt)
        if op == 'ret':
            ty = p.type()
            if ty.k == 'void':
                return Ins('ret', None, ty, None, txt=txt)
            return Ins('ret', None, ty, p.value(ty), txt=txt)
        if op in ('call', 'invoke'):
            while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'contract', 'reassoc', 'arcp', 'afn', 'fastcc', 'ccc',
                               'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'cc', 'tailcc', 'coldcc',
                               'align', 'dereferenceable', 'dereferenceable_or_null', 'range', 'nofpclass'):
                if p.peek() in ('align', 'dereferenceable', 'dereferenceable_or_null', 'range', 'nofpclass'):
                    p.attrs()
                else:
                    p.next()
            rty = p.type()
            if p.peek() == '(':  # vararg function type
                p.paren()
            if p.peek() == 'asm':
                return Ins('unsupported', res, rty, 'asm', txt=txt)
            callee = p.value(PTR)
            p.exp('(')
            args = []
            while not p.acc(')'):
                ty = p.type()
                if ty.k == 'metadata':
                    # skip metadata operand
                    while p.peek() not in (',', ')'):
                        p.next()
                    p.acc(',')
                    continue
                p.attrs()
                args.append((ty, p.value(ty)))
                p.acc(',')
            nounwind = False
            normal = unwind = None
            while p.peek() is not None:
                w = p.next()
                if w == 'nounwind':
                    nounwind = True
                elif w[0] == '#':
                    nounwind = nounwind or ('nounwind' in self.mod.attrgroups.get(w, ''))
                elif w == 'to':
                    p.exp('label')
                    normal = p.next()
                elif w == 'unwind':
                    p.exp('label')
                    unwind = p.next()
            return Ins(op, res, rty, callee, args, (normal, unwind), nounwind, txt=txt)
        if op == 'landingpad':
            ty = p.type()
            cl = []
            while p.peek() is not None:
                w = p.next()
                if w == 'cleanup':
                    cl.append(('cleanup', None))
                elif w == 'catch':
                    p.type()
                    cl.append(('catch', p.value(PTR)))
                elif w == 'filter':
                    cl.append(('filter', None))
                    break
            return Ins('landingpad', res, ty, cl, txt=txt)
        if op == 'resume':
            ty = p.type()
            return Ins('resume', None, ty, p.value(ty), txt=txt)
        if op == 'unreachable':
            return Ins('unreachable', txt=txt)
        if op == 'phi':
            ty = p.type()
            inc = []
            while p.acc('['):
                v = p.value(ty)
                p.exp(',')
                inc.append((v, p.next()))
                p.exp(']')
                p.acc(',')
            return Ins('phi', res, ty, inc, txt=txt)
        if op == 'select':
            ct = p.type()
            c = p.value(ct)
            p.exp(',')
            ty = p.type()
            a = p.value(ty)
            p.exp(',')
            p.type()
            b = p.value(ty)
            return Ins('select', res, ty, c, a, b, x=ct, txt=txt)
        if op == 'extractvalue':
            ty = p.type()
            v = p.value(ty)
            ix = []
            while p.acc(','):
                ix.append(int(p.next()))
            return Ins('extractvalue', res, ty, v, ix, txt=txt)
        if op == 'insertvalue':
            ty = p.type()
            v = p.value(ty)
            p.exp(',')
            t2 = p.type()
            v2 = p.value(t2)
            ix = []
            while p.acc(','):
                ix.append(int(p.next()))
            return Ins('insertvalue', res, ty, v, v2, ix, txt=txt)
        if op == 'extractelement':
            ty = p.type()
            v = p.value(ty)
            p.exp(',')
            t2 = p.type()
            return Ins('extractelement', res, ty, v, p.value(t2), txt=txt)
        if op == 'insertelement':
            ty = p.type()
            v = p.value(ty)
            p.exp(',')
            t2 = p.type()
            v2 = p.value(t2)
            p.exp(',')
            t3 = p.type()
            return Ins('insertelement', res, ty, v, v2, p.value(t3), txt=txt)
        if op == 'shufflevector':
            ty = p.type()
            a = p.value(ty)
            p.exp(',')
            p.type()
            b = p.value(ty)
            p.exp(',')
            mt = p.type()
            return Ins('shufflevector', res, ty, a, b, p.value(mt), x=mt, txt=txt)
        if op == 'freeze':
            ty = p.type()
            return Ins('freeze', res, ty, p.value(ty), txt=txt)
        if op == 'fence':
            return Ins('nop', txt=txt)
        return Ins('unsupported', res, None, op, txt=txt)

    # CFG
    def succs(self, lab):
        t = self.blocks[lab][-1]
        if t.op == 'br':
            return [t.a]
        if t.op == 'cbr':
            return [t.b, t.c]
        if t.op == 'switch':
            return [t.b] + [l for _, l in t.c]
        if t.op == 'invoke':
            return [t.c[0], t.c[1]]
        return []

    def loops(self):
        """loop headers -> set of body labels (natural loops, via DFS back edges/dominators)"""
        if hasattr(self, '_loops'):
            return self._loops
        self.parse()
        order = []
        seen = set()
        st = [(self.entry, iter(self.succs(self.entry)))]
        seen.add(self.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(b)
                st.pop()
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succs(b):
                preds[s].append(b)
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [x for x in preds[b] if x in idom]
                d = ps[0]
                for q in ps[1:]:
                    x, y = d, q
                    while x != y:
                        while num[x] > num[y]:
                            x = idom[x]
                        while num[y] > num[x]:
                            y = idom[y]
                    d = x
                if idom.get(b) != d:
                    idom[b] = d
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in self.succs(b):
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    stk = [b]
                    while stk:
                        x = stk.pop()
                        if x not in body:
                            body.add(x)
                            stk.extend(preds[x])
        self._loops = loops
        return loops


class Module:
    def __init__(self, text):
        self.funcs = {}
        self.decls = {}
        self.types = {}
        self.globals = {}
        self.attrgroups = {}
        self._tycache = {}
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', ln)
                nm = m.group(1).strip('"')
                self.funcs[nm] = Func(self, nm, ln, lines[i + 1:j])
                i = j + 1
                continue
            if ln.startswith('declare '):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', ln)
                self.decls[m.group(1).strip('"')] = ln
            elif ln.startswith('%'):
                k, v = ln.split(' = type ', 1)
                self.types[k] = v
            elif ln.startswith('@'):
                k, v = ln.split(' = ', 1)
                self.globals[k[1:].strip('"')] = v
            elif ln.startswith('attributes'):
                m = re.match(r'attributes (#\d+) = (.*)', ln)
                self.attrgroups[m.group(1)] = m.group(2)
            i += 1
        self._gparsed = {}

    def nounwind(self, fname):
        f = self.funcs.get(fname)
        h = f.header if f else self.decls.get(fname, '')
        for w in re.findall(r'#\d+', h):
            if 'nounwind' in self.attrgroups.get(w, ''):
                return True
        return ' nounwind' in h

    def resolve(self, ty):
        while ty.k == 'named':
            t = self._tycache.get(ty.a)
            if t is None:
                v = self.types[ty.a]
                t = Ty('opaque') if v.strip() == 'opaque' else P(tokenize(v), self).type()
                self._tycache[ty.a] = t
            ty = t
        return ty

    def align(self, ty):
        ty = self.resolve(ty)
        if ty.k == 'int':
            return min(8 if ty.a <= 64 else 16, max(1, (ty.a + 7) // 8))
        if ty.k == 'ptr' or ty.k == 'double':
            return 8
        if ty.k == 'float':
            return 4
        if ty.k == 'arr':
            return self.align(ty.b)
        if ty.k == 'vec':
            return self.size(ty)
        if ty.k == 'struct':
            if ty.b:
                return 1
            return max([self.align(x) for x in ty.a] or [1])
        if ty.k == 'half':
            return 2
        return 16

    def size(self, ty):
        ty = self.resolve(ty)
        if ty.k == 'int':
            return 1 if ty.a <= 8 else (ty.a + 7) // 8
        if ty.k in ('ptr', 'double'):
            return 8
        if ty.k == 'float':
            return 4
        if ty.k == 'half':
            return 2
        if ty.k == 'x86_fp80':
            return 16
        if ty.k == 'arr':
            return ty.a * self.size(ty.b)
        if ty.k == 'vec':
            if ty.b.k == 'int' and ty.b.a == 1:
                return max(1, ty.a // 8)
            return ty.a * self.size(ty.b)
        if ty.k == 'struct':
            o = 0
            for x in ty.a:
                if not ty.b:
                    al = self.align(x)
                    o = (o + al - 1) // al * al
                o += self.size(x)
            if not ty.b:
                al = self.align(ty)
                o = (o + al - 1) // al * al
            return o
        if ty.k == 'opaque':
            return 0
        raise ValueError(ty)

    def field(self, ty, i):
        """(offset, type) of struct field i"""
        ty = self.resolve(ty)
        o = 0
        for j, x in enumerate(ty.a):
            if not ty.b:
                al = self.align(x)
                o = (o + al - 1) // al * al
            if j == i:
                return o, x
            o += self.size(x)
        raise IndexError

    def ginit(self, name):
        """(type, initializer) of a global with definition; initializer None when external"""
        if name in self._gparsed:
            return self._gparsed[name]
        v = self.globals.get(name)
        if v is None:
            return None
        p = P(tokenize(v), self)
        ext = False
        while p.peek() in ('private', 'internal', 'linkonce_odr', 'weak_odr', 'weak', 'external', 'dso_local', 'hidden',
                           'unnamed_addr', 'local_unnamed_addr', 'constant', 'global', 'thread_local', 'comdat',
                           'extern_weak', 'common', 'appending', 'protected', 'linkonce'):
            w = p.next()
            if w in ('external', 'extern_weak'):
                ext = True
        ty = p.type()
        init = None if ext else p.value(ty)
        self._gparsed[name] = (ty, init)
        return ty, init

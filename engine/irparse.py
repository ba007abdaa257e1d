"""Textual LLVM-18 IR reader (lazy per function).  No analysis here."""
import re, struct

TOK = re.compile(r'''\s*(?:
 (?P<loc>%"[^"]*"|%[-\w.$]+)|
 (?P<glo>@"[^"]*"|@[-\w.$]+)|
 (?P<cstr>c"[^"]*")|
 (?P<str>"[^"]*")|
 (?P<md>![-\w.]*)|
 (?P<attr>\#\d+)|
 (?P<num>0x[KMLHR]?[0-9A-Fa-f]+|-?\d+\.\d+(?:[eE][+-]?\d+)?|-?\d+)|
 (?P<word>[A-Za-z_$][-\w.$]*)|
 (?P<dots>\.\.\.)|
 (?P<p>[\[\]{}<>(),=*|:])
)''', re.X)

WORDFLAGS = {'inbounds','nuw','nsw','exact','fast','nnan','ninf','nsz','arcp','contract','reassoc','afn',
             'volatile','tail','musttail','notail','nneg','disjoint','samesign','nusw'}
PATTR = {'noundef','nonnull','noalias','nocapture','readonly','writeonly','readnone','signext','zeroext','inreg',
         'returned','immarg','nest','swiftself','nofree','noreturn','nounwind','dead_on_unwind','writable','allocptr','mustprogress','nosync','willreturn'}
PATTRP = {'sret','byval','dereferenceable','dereferenceable_or_null','align','range','elementtype','byref','preallocated','inalloca','initializes','nofpclass','captures'}


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == '':
                break
            raise SyntaxError('tok: ' + s[pos:pos + 60] + ' in ' + s[:200])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        pos = m.end()
    out.append(('eof', ''))
    return out


def unq(s):
    # strip sigil and quotes
    s = s[1:]
    if s.startswith('"'):
        s = s[1:-1]
    return s


def hexdouble(t):
    return struct.unpack('>d', struct.pack('>Q', int(t, 16)))[0]


class P:
    __slots__ = ('t', 'i', 'mod')

    def __init__(self, s, mod):
        self.t = tokenize(s)
        self.i = 0
        self.mod = mod

    def peek(self):
        return self.t[self.i]

    def pv(self):
        return self.t[self.i][1]

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def acc(self, v):
        if self.t[self.i][1] == v and self.t[self.i][0] in ('p', 'word', 'dots'):
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            raise SyntaxError('expected %s got %s' % (v, self.t[self.i:self.i + 6]))

    # ---- types
    def type(self):
        k, v = self.next()
        if k == 'word':
            if v == 'ptr':
                if self.acc('addrspace'):
                    self.exp('('); self.next(); self.exp(')')
                ty = ('ptr',)
            elif v == 'void':
                ty = ('void',)
            elif v == 'double':
                ty = ('f', 64)
            elif v == 'float':
                ty = ('f', 32)
            elif v == 'x86_fp80':
                ty = ('f', 80)
            elif v in ('label', 'metadata', 'token', 'opaque'):
                ty = (v,)
            elif re.fullmatch(r'i\d+', v):
                ty = ('i', int(v[1:]))
            else:
                raise SyntaxError('type? ' + v)
        elif k == 'loc':
            ty = ('named', unq(v))
        elif v == '[':
            n = int(self.next()[1]); self.exp('x'); t = self.type(); self.exp(']')
            ty = ('arr', n, t)
        elif v == '<':
            if self.pv() == '{':
                self.next()
                fs = self.typelist('}')
                self.exp('>')
                ty = ('struct', True, tuple(fs))
            else:
                n = int(self.next()[1]); self.exp('x'); t = self.type(); self.exp('>')
                ty = ('vec', n, t)
        elif v == '{':
            fs = self.typelist('}')
            ty = ('struct', False, tuple(fs))
        else:
            raise SyntaxError('type? %s %s' % (k, v))
        while True:
            if self.pv() == '(' and self.peek()[0] == 'p' and ty[0] in ('void', 'f', 'i', 'ptr', 'named', 'struct'):
                # function type
                save = self.i
                try:
                    self.next()
                    args = []
                    va = False
                    while not self.acc(')'):
                        if self.acc('...'):
                            va = True
                        else:
                            args.append(self.type())
                        self.acc(',')
                    ty = ('fn', ty, tuple(args), va)
                    continue
                except SyntaxError:
                    self.i = save
                    break
            break
        return ty

    def typelist(self, end):
        fs = []
        while not self.acc(end):
            fs.append(self.type())
            self.acc(',')
        return fs

    def attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in PATTR:
                self.next()
            elif k == 'word' and v in PATTRP:
                self.next()
                if self.pv() == '(':
                    d = 0
                    while True:
                        x = self.next()[1]
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0:
                                break
                elif self.peek()[0] == 'num':
                    self.next()
            elif k == 'attr' or k == 'str':
                self.next()
                if k == 'str' and self.acc('='):
                    self.next()
            else:
                break

    # ---- values
    def value(self, ty):
        k, v = self.next()
        if k == 'loc':
            return ('reg', unq(v))
        if k == 'glo':
            return ('g', unq(v))
        if k == 'num':
            if ty[0] == 'f':
                if v.startswith('0x'):
                    if v[2] in 'KMLHR':
                        return ('cf', 0.0)
                    return ('cf', hexdouble(v))
                return ('cf', float(v))
            if ty[0] == 'i':
                return ('ci', int(v) & ((1 << ty[1]) - 1))
            return ('ci', int(v))
        if k == 'cstr':
            raw = v[2:-1]
            b = bytearray()
            i = 0
            while i < len(raw):
                if raw[i] == '\\':
                    b.append(int(raw[i + 1:i + 3], 16)); i += 3
                else:
                    b.append(ord(raw[i])); i += 1
            return ('bytes', bytes(b))
        if k == 'word':
            if v == 'true':
                return ('ci', 1)
            if v == 'false':
                return ('ci', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v in ('zeroinitializer', 'none'):
                return ('zero',)
            if v == 'getelementptr':
                while self.pv() in WORDFLAGS or self.pv() == 'inrange':
                    w = self.next()[1]
                    if w == 'inrange' and self.pv() == '(':
                        while self.next()[1] != ')':
                            pass
                self.exp('(')
                st = self.type(); self.exp(',')
                bt = self.type(); b = self.value(bt)
                idx = []
                while self.acc(','):
                    self.acc('inrange')
                    it = self.type()
                    idx.append((it, self.value(it)))
                self.exp(')')
                return ('cgep', st, b, tuple(idx))
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
                self.exp('(')
                st = self.type(); b = self.value(st); self.exp('to'); dt = self.type(); self.exp(')')
                return ('ccast', v, st, b, dt)
            if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'icmp'):
                while self.pv() in WORDFLAGS:
                    self.next()
                self.exp('(')
                t1 = self.type(); a = self.value(t1); self.exp(','); t2 = self.type(); b = self.value(t2); self.exp(')')
                return ('cbin', v, t1, a, b)
            raise SyntaxError('value word ' + v)
        if v == '[' or v == '{' or v == '<':
            end = {'[': ']', '{': '}', '<': '>'}[v]
            if v == '<' and self.pv() == '{':
                self.next()
                el = self.vallist('}')
                self.exp('>')
                return ('agg', tuple(el))
            el = self.vallist(end)
            return ('agg', tuple(el))
        raise SyntaxError('value? %s %s' % (k, v))

    def vallist(self, end):
        el = []
        while not self.acc(end):
            t = self.type()
            el.append((t, self.value(t)))
            self.acc(',')
        return el

    def tv(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'fn', 'rmap')

    def __init__(self, op, res, ty, a, dbg, fn):
        self.op = op; self.res = res; self.ty = ty; self.a = a; self.dbg = dbg; self.fn = fn
        self.rmap = None

    def __repr__(self):
        return '%s = %s %s %s' % (self.res, self.op, self.ty, self.a)


class Block:
    __slots__ = ('name', 'ins', 'phis', 'succ', 'order', 'loophead')

    def __init__(self, name):
        self.name = name; self.ins = []; self.phis = []; self.succ = []; self.order = 0; self.loophead = False


class Function:
    def __init__(self, mod, header, lines, linkage_internal):
        self.mod = mod
        self.header = header
        self.lines = lines
        self.parsed = False
        self.internal = linkage_internal
        m = re.search(r'(@"[^"]*"|@[-\w.$]+)\(', header)
        self.name = unq(m.group(1))
        md = re.search(r'!dbg !(\d+)', header)
        self.dbg = int(md.group(1)) if md else None
        self._m = m

    def parse(self):
        if self.parsed:
            return
        self.parsed = True
        mod = self.mod
        p = P(self.header[self._m.end() - 1:], mod)
        p.exp('(')
        self.params = []
        cnt = 0
        self.vararg = False
        while not p.acc(')'):
            if p.acc('...'):
                self.vararg = True
                continue
            t = p.type()
            p.attrs()
            if p.peek()[0] == 'loc':
                nm = unq(p.next()[1])
            else:
                nm = str(cnt)
            cnt += 1
            self.params.append((t, nm))
            p.acc(',')
        # return type
        pre = self.header[:self._m.start()]
        self.blocks = {}
        self.border = []
        entry_name = str(cnt)
        cur = None
        i = 0
        L = self.lines
        while i < len(L):
            s = L[i]
            i += 1
            if not s.strip() or s.startswith(';'):
                continue
            if s[0] != ' ' and s[0] != '\t':
                lab = s.split(':')[0] if not s.startswith('"') else s[1:s.index('"', 1)]
                cur = Block(lab)
                self.blocks[lab] = cur
                self.border.append(lab)
                continue
            if cur is None:
                cur = Block(entry_name)
                self.blocks[entry_name] = cur
                self.border.append(entry_name)
            st = s.strip()
            # join continuation lines
            if st.startswith('switch') or ' = switch' in st:
                while ']' not in s:
                    s = s + ' ' + L[i].strip(); i += 1
                    if L[i - 1].strip().startswith(']'):
                        break
            elif ' invoke ' in (' ' + st) and i < len(L) and L[i].strip().startswith('to label'):
                s = s + ' ' + L[i].strip(); i += 1
            elif 'landingpad' in st:
                while i < len(L) and (L[i].strip().startswith(('cleanup', 'catch', 'filter'))):
                    i += 1
            if '@llvm.dbg.' in s or '@llvm.lifetime' in s or 'experimental.noalias' in s:
                continue
            ins = self.parse_instr(s)
            if ins is None:
                continue
            if ins.op == 'phi':
                cur.phis.append(ins)
            else:
                cur.ins.append(ins)
        for b in self.blocks.values():
            t = b.ins[-1]
            if t.op == 'br':
                b.succ = [t.a[1]] if t.a[0] is None else [t.a[1], t.a[2]]
            elif t.op == 'switch':
                b.succ = [t.a[1]] + [x[1] for x in t.a[2]]
            elif t.op == 'invoke':
                b.succ = [t.a[3]]
            else:
                b.succ = []
        self.compute_order()
        self.lines = None

    def compute_order(self):
        """loop-contiguous topological order: a block outside a loop comes after all blocks of the loop."""
        ent = self.border[0]
        self.entry = ent
        # reachable
        succ = {}
        st = [ent]
        seen = {ent}
        while st:
            b = st.pop()
            succ[b] = list(dict.fromkeys(self.blocks[b].succ))
            for x in succ[b]:
                if x not in seen:
                    seen.add(x); st.append(x)
        # recursive SCC based WTO
        order = []
        loops = {}   # head -> set of blocks

        def sccs(nodes, edges):
            idx = {}; low = {}; onst = set(); stk = []; out = []
            c = [0]
            for root in nodes:
                if root in idx:
                    continue
                work = [(root, iter(edges[root]))]
                idx[root] = low[root] = c[0]; c[0] += 1
                stk.append(root); onst.add(root)
                while work:
                    v, it = work[-1]
                    adv = False
                    for w in it:
                        if w not in idx:
                            idx[w] = low[w] = c[0]; c[0] += 1
                            stk.append(w); onst.add(w)
                            work.append((w, iter(edges[w])))
                            adv = True
                            break
                        elif w in onst:
                            low[v] = min(low[v], idx[w])
                    if adv:
                        continue
                    work.pop()
                    if work:
                        u = work[-1][0]
                        low[u] = min(low[u], low[v])
                    if low[v] == idx[v]:
                        comp = []
                        while True:
                            w = stk.pop(); onst.discard(w); comp.append(w)
                            if w == v:
                                break
                        out.append(comp)
            out.reverse()
            return out

        def rec(nodes, head):
            # nodes ordered list; remove back edges into head
            ns = set(nodes)
            edges = {n: [x for x in succ[n] if x in ns and x != head] for n in nodes}
            first = [head] if head is not None else [ent]
            rest = [n for n in nodes if n not in first]
            comps = sccs(first + rest, edges)
            for comp in comps:
                if len(comp) == 1 and comp[0] not in edges[comp[0]]:
                    order.append(comp[0])
                else:
                    cs = set(comp)
                    # header: node with edge from outside comp (in whole graph)
                    hd = None
                    for n in comp:
                        for m in seen:
                            if m not in cs and n in succ[m]:
                                hd = n
                                break
                        if hd:
                            break
                    hd = hd or comp[0]
                    loops[hd] = cs
                    rec([hd] + [x for x in comp if x != hd], hd)
        nodes = [b for b in self.border if b in seen]
        rec(nodes, None)
        self.loops = loops
        for i, b in enumerate(order):
            self.blocks[b].order = i
            if b in loops:
                self.blocks[b].loophead = True
        self.order = order

    def parse_instr(self, s):
        dbg = None
        m = re.search(r', !dbg !(\d+)', s)
        if m:
            dbg = int(m.group(1))
        j = s.find(', !dbg')
        if j < 0:
            j = s.find(', !')
        if j >= 0 and s.find('metadata') < 0:
            if 'switch' in s or 'invoke' in s:
                s = re.sub(r', ![\w.]+ ![\w]+', '', s)
            else:
                s = s[:j]
        p = P(s, self.mod)
        res = None
        if p.peek()[0] == 'loc' and p.t[p.i + 1][1] == '=':
            res = unq(p.next()[1]); p.next()
        while p.pv() in WORDFLAGS:
            p.next()
        op = p.next()[1]
        I = lambda ty, a, o=op: Instr(o, res, ty, a, dbg, self)
        if op == 'alloca':
            ty = p.type()
            cnt = ('ci', 1)
            while p.acc(','):
                if p.pv() == 'align':
                    break
                t2 = p.type(); cnt = p.value(t2)
            return I(ty, (cnt,))
        if op == 'load':
            while p.pv() in WORDFLAGS or p.pv() == 'atomic':
                p.next()
            ty = p.type(); p.exp(','); p.type(); ptr = p.value(('ptr',))
            return I(ty, (ptr,))
        if op == 'store':
            while p.pv() in WORDFLAGS or p.pv() == 'atomic':
                p.next()
            ty = p.type(); v = p.value(ty); p.exp(','); p.type(); ptr = p.value(('ptr',))
            return I(ty, (v, ptr))
        if op == 'getelementptr':
            while p.pv() in WORDFLAGS:
                p.next()
            st = p.type(); p.exp(',')
            p.type(); b = p.value(('ptr',))
            idx = []
            while p.acc(','):
                it = p.type()
                idx.append((it, p.value(it)))
            return I(('ptr',), (st, b, tuple(idx)))
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while p.pv() in WORDFLAGS:
                p.next()
            ty = p.type(); a = p.value(ty); p.exp(','); b = p.value(ty)
            return I(ty, (a, b))
        if op == 'fneg':
            while p.pv() in WORDFLAGS:
                p.next()
            ty = p.type(); a = p.value(ty)
            return I(ty, (a,))
        if op in ('icmp', 'fcmp'):
            while p.pv() in WORDFLAGS:
                p.next()
            pred = p.next()[1]
            ty = p.type(); a = p.value(ty); p.exp(','); b = p.value(ty)
            return I(ty, (pred, a, b))
        if op in ('zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'ptrtoint', 'inttoptr', 'bitcast',
                  'fpext', 'fptrunc'):
            while p.pv() in WORDFLAGS:
                p.next()
            st = p.type(); a = p.value(st); p.exp('to'); dt = p.type()
            return I(dt, (st, a))
        if op == 'select':
            while p.pv() in WORDFLAGS:
                p.next()
            ct = p.type(); c = p.value(ct); p.exp(',')
            ty = p.type(); a = p.value(ty); p.exp(','); p.type(); b = p.value(ty)
            return I(ty, (c, a, b))
        if op == 'freeze':
            ty = p.type(); a = p.value(ty)
            return I(ty, (a,))
        if op == 'phi':
            while p.pv() in WORDFLAGS:
                p.next()
            ty = p.type()
            inc = []
            while True:
                p.exp('[')
                v = p.value(ty); p.exp(',')
                b = unq(p.next()[1]); p.exp(']')
                inc.append((v, b))
                if not p.acc(','):
                    break
            return I(ty, tuple(inc))
        if op == 'br':
            if p.acc('label'):
                return I(None, (None, unq(p.next()[1])))
            t = p.type(); c = p.value(t); p.exp(','); p.exp('label'); a = unq(p.next()[1]); p.exp(',')
            p.exp('label'); b = unq(p.next()[1])
            return I(None, (c, a, b))
        if op == 'switch':
            t = p.type(); c = p.value(t); p.exp(','); p.exp('label'); d = unq(p.next()[1]); p.exp('[')
            cases = []
            while not p.acc(']'):
                ct = p.type(); cv = p.value(ct); p.exp(','); p.exp('label')
                cases.append((cv[1], unq(p.next()[1])))
            return I(t, (c, d, tuple(cases)))
        if op == 'ret':
            t = p.type()
            return I(t, (None if t[0] == 'void' else p.value(t),))
        if op in ('unreachable', 'resume'):
            return I(None, (), 'unreachable')
        if op == 'landingpad':
            return I(None, (), 'landingpad')
        if op in ('call', 'invoke'):
            while p.peek()[0] == 'word' and p.pv() in WORDFLAGS | {'fastcc', 'ccc', 'coldcc'}:
                p.next()
            p.attrs()
            ty = p.type()
            if ty[0] == 'fn':
                ty = ty[1]
            if p.pv() == 'asm':
                raise SyntaxError('asm')
            callee = p.value(('ptr',))
            p.exp('(')
            args = []
            while not p.acc(')'):
                at = p.type()
                if at[0] == 'metadata':
                    d = 0
                    while not (d == 0 and p.pv() in (',', ')')):
                        x = p.next()[1]
                        if x == '(':
                            d += 1
                        if x == ')':
                            d -= 1
                    args.append((at, ('undef',)))
                else:
                    byval = p.t[p.i][1] == 'byval'
                    p.attrs()
                    args.append((at, p.value(at)))
                p.acc(',')
            p.attrs()
            nd = ud = None
            if op == 'invoke':
                while p.pv() != 'to':
                    p.next()
                p.exp('to'); p.exp('label'); nd = unq(p.next()[1]); p.exp('unwind'); p.exp('label'); ud = unq(p.next()[1])
                return I(ty, (callee, tuple(args), None, nd, ud))
            return I(ty, (callee, tuple(args), None))
        if op == 'extractvalue':
            t = p.type(); a = p.value(t)
            idx = []
            while p.acc(','):
                idx.append(int(p.next()[1]))
            return I(t, (a, tuple(idx)))
        if op == 'insertvalue':
            t = p.type(); a = p.value(t); p.exp(','); et = p.type(); e = p.value(et)
            idx = []
            while p.acc(','):
                idx.append(int(p.next()[1]))
            return I(t, (a, et, e, tuple(idx)))
        if op == 'fence':
            return I(None, (), 'fence')
        if op == 'atomicrmw':
            while p.pv() in WORDFLAGS:
                p.next()
            k = p.next()[1]
            p.type(); ptr = p.value(('ptr',)); p.exp(','); ty = p.type(); v = p.value(ty)
            return I(ty, (k, ptr, v))
        if op == 'cmpxchg':
            return I(None, (s,), 'unsupported')
        if op in ('extractelement', 'insertelement', 'shufflevector', 'va_arg'):
            return I(None, (s,), 'unsupported')
        raise SyntaxError('instr? ' + s)


class Module:
    def __init__(self, path, name):
        self.path = path
        self.name = name
        self.types = {}
        self.tcache = {}
        self.funcs = {}
        self.globals = {}
        self.aliases = {}
        self.md = {}
        self.declares = set()
        self.read(path)

    def read(self, path):
        lines = open(path, encoding='utf-8', errors='replace').read().split('\n')
        i = 0
        n = len(lines)
        while i < n:
            s = lines[i]
            if s.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                f = Function(self, s, lines[i + 1:j], ' internal ' in s[:60] or ' private ' in s[:60])
                self.funcs[f.name] = f
                i = j + 1
                continue
            if s.startswith('!'):
                k = s.find(' = ')
                if k > 0 and s[1:k].isdigit():
                    self.md[int(s[1:k])] = s[k + 3:]
            elif s.startswith('%'):
                k = s.find(' = type ')
                self.types[unq(s[:k])] = s[k + 8:]
            elif s.startswith('@'):
                k = s.find(' = ')
                nm = unq(s[:k])
                rest = s[k + 3:]
                if re.match(r'(?:[\w()]+ )*alias ', rest):
                    tgt = re.findall(r'(@"[^"]*"|@[-\w.$]+)', rest)[-1]
                    self.aliases[nm] = unq(tgt)
                else:
                    self.globals[nm] = rest
            elif s.startswith('declare '):
                m = re.search(r'(@"[^"]*"|@[-\w.$]+)\(', s)
                self.declares.add(unq(m.group(1)))
            i += 1

    def global_def(self, nm):
        """returns (type, init_value or None, is_const, internal)"""
        rest = self.globals[nm]
        const = re.search(r'(?:^| )constant ', rest.split('{')[0].split('[')[0]) is not None
        ext = re.match(r'(?:[\w()]+ )*external ', rest) is not None
        internal = re.match(r'(?:[\w()]+ )*(internal|private) ', rest) is not None
        m = re.search(r'(?:^| )(?:global|constant) ', rest)
        body = rest[m.end():]
        j = body.find(', align')
        k = body.find(', !dbg')
        p = P(re.sub(r', !dbg !\d+', '', body), self)
        ty = p.type()
        init = None
        if not ext and p.peek()[0] != 'eof' and p.pv() != ',':
            init = p.value(ty)
        return ty, init, const, internal

    # ---- layout
    def resolve(self, ty):
        if ty[0] == 'named':
            r = self.tcache.get(ty)
            if r is None:
                r = P(self.types[ty[1]], self).type()
                self.tcache[ty] = r
            return r
        return ty

    def layout(self, ty):
        """(size, align, field offsets)"""
        key = ('L', ty)
        r = self.tcache.get(key)
        if r is not None:
            return r
        t = self.resolve(ty)
        if t[0] == 'i':
            n = t[1]
            sz = 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
            r = (sz, sz, None)
        elif t[0] == 'f':
            r = {32: (4, 4, None), 64: (8, 8, None), 80: (16, 16, None)}[t[1]]
        elif t[0] == 'ptr':
            r = (8, 8, None)
        elif t[0] in ('arr', 'vec'):
            s, a, _ = self.layout(t[2])
            r = (s * t[1], a, None)
        elif t[0] == 'struct':
            off = 0
            al = 1
            offs = []
            for f in t[2]:
                s, a, _ = self.layout(f)
                if t[1]:
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            r = (off, al, tuple(offs))
        elif t[0] == 'opaque':
            r = (0, 1, ())
        else:
            raise SyntaxError('layout %s' % (t,))
        self.tcache[key] = r
        return r

    def size(self, ty):
        return self.layout(ty)[0]

    # ---- debug info
    def loc(self, dbg):
        """(file, line) for a DILocation id"""
        if dbg is None:
            return ('?', 0)
        key = ('D', dbg)
        r = self.tcache.get(key)
        if r is not None:
            return r
        s = self.md.get(dbg, '')
        m = re.search(r'line: (\d+)', s)
        line = int(m.group(1)) if m else 0
        sc = re.search(r'scope: !(\d+)', s)
        f = self.scope_file(int(sc.group(1))) if sc else '?'
        r = (f, line)
        self.tcache[key] = r
        return r

    def scope_file(self, sid):
        for _ in range(50):
            s = self.md.get(sid, '')
            m = re.search(r'file: !(\d+)', s)
            if m:
                fs = self.md.get(int(m.group(1)), '')
                mm = re.search(r'filename: "([^"]*)"', fs)
                dd = re.search(r'directory: "([^"]*)"', fs)
                fn = mm.group(1) if mm else '?'
                if not fn.startswith('/') and dd:
                    fn = dd.group(1) + '/' + fn
                return fn
            m = re.search(r'scope: !(\d+)', s)
            if not m:
                return '?'
            sid = int(m.group(1))
        return '?'

"""What the printing classes write is well-formed PostScript or PDF, whatever
is printed and in whatever order the public operations are called."""
import re
from ..flow import Flow, Unsupported, Exits
from ..ir import walk, load, REPO
from ..expr import strip, ASSIGN
from ..report import Check
from ..paper import Paper, Lin, L, Num, Txt, Bad, ALL, PRINT, fresh, prolog

CAP = 16


def tystr(n):
    return ((n or {}).get('ty') or {}).get('s') or ''


def isstring(t):
    return 'basic_string<' in t and 'iterator' not in t and 'map<' not in t and 'list<' not in t and 'set<' not in t and 'vector<' not in t and 'stream' not in t


def ischar(ty):
    return bool(ty.get('ch')) and not ty.get('ptr') and not ty.get('arr')


def base(n):
    n = strip(n)
    while n.get('k') == 'un' and n.get('op') in ('*', '&') or n.get('k') == 'ctor' and len(n.get('a') or []) == 1:
        n = strip((n.get('c') or n.get('a'))[0])
    return n


def shift(n):
    """stream, operand of an insertion."""
    if n.get('k') == 'call' and n.get('op') == '<<':
        a = list(n.get('a') or [])
        if n.get('obj') is not None:
            a = [n['obj']] + a
        if len(a) == 2:
            return a
    return None


class World:
    def __init__(self, prog):
        self.prog = prog
        self.pages = [r for r in prog.derived('ringing::printpage') if not r.d.get('abs') and r.mine]
        self.rows = [r for r in prog.derived('ringing::printrow::base') if not r.d.get('abs') and r.mine]
        self.fns = [f for f in prog.real_fns() if f.file.startswith(REPO) and not f.d.get('dep')]
        self.by_cls = {}
        for f in self.fns:
            self.by_cls.setdefault(f.cls, []).append(f)
        self.sinks = self.find_sinks()
        self.tracked = {r.q for r in self.pages + self.rows}
        for r in self.pages:
            for f in r.fields:
                c = (f['ty'].get('cls') or '')
                if c in self.sinks:
                    self.tracked.add(c)
        self.ints = {r.q for r in self.pages} | {c for c in self.tracked if c in self.sinks}
        self.relevant = self.find_relevant()
        self.charsets = self.find_chars()
        self.taint = self.find_taint()
        self.names = self.find_names()
        self.marking = any(self.mark(n) for f in self.fns if f.cls in self.tracked for n in f.nodes())
        self.prolog_bad = []
        self.procs = self.find_prolog()

    def find_sinks(self):
        """Classes with an inserter of their own that passes what it is given on."""
        out = set()
        for f in self.fns:
            if f.n == 'operator<<' and f.cls and f.params and len(f.params) == 1 and f.d.get('inst'):
                for n in f.nodes():
                    s = shift(n)
                    if s and 'ostream' in tystr(s[0]) and 'stringstream' not in tystr(s[0]) and base(s[0]).get('k') == 'field' and base(s[1]).get('k') == 'var':
                        out.add(f.cls)
        return out

    def root(self, n):
        n = strip(n)
        while shift(n):
            n = strip(shift(n)[0])
        return n

    def emission(self, n):
        """The operand, if n inserts into a document."""
        s = shift(n)
        if not s:
            return None
        t = tystr(n)
        c = (n.get('ty') or {}).get('cls') or ''
        if not ('ostream' in t or c in self.sinks):
            return None
        r = base(self.root(n))
        if not self.stream(r):
            return None
        return s[1]

    def stream(self, r):
        t = tystr(r)
        if 'stringstream' in t or 'make_string' in t:
            return False
        c = (r.get('ty') or {}).get('cls') or ''
        if not ('ostream' in t or c in self.sinks):
            return False
        if r.get('k') == 'field':
            return True
        if r.get('k') == 'var':
            return r.get('dk') in ('param', 'local')
        return False

    def position(self, n):
        n = strip(n)
        return n.get('k') == 'call' and not (n.get('a') or []) and n.get('obj') is not None and (
            n.get('n') == 'tellp' or (n.get('ty') or {}).get('int') and any('streambuf' in (b or '') for b in self.prog.bases((strip(n['obj']).get('ty') or {}).get('cls') or '')))

    def mark(self, n):
        """(index, value) if n records something in a table by number."""
        if n.get('k') == 'bin' and n.get('op') == '=':
            l = strip(n['c'][0])
            if l.get('k') == 'call' and l.get('op') == '[]' or l.get('k') == 'idx':
                b = self.table(l)
                if b:
                    return b[1], n['c'][1]
        return None

    def table(self, l):
        """(field, index) of an element of a table of numbers a page or a file keeps."""
        l = strip(l)
        if l.get('k') == 'call' and l.get('op') == '[]':
            a = ([l['obj']] if l.get('obj') is not None else []) + list(l.get('a') or [])
        elif l.get('k') == 'call' and l.get('n') == 'at' and l.get('obj') is not None:
            a = [l['obj']] + list(l.get('a') or [])
        elif l.get('k') == 'idx':
            a = l['c']
        else:
            return None
        if len(a) != 2:
            return None
        b = strip(a[0])
        if b.get('k') == 'field' and b.get('rec') in self.ints and ((l.get('ty') or {}).get('int')):
            return b, a[1]
        return None

    def field(self, n):
        """Key of a field whose value is followed."""
        n = strip(n)
        if n.get('k') == 'field' and n.get('rec') in self.tracked:
            ty = n.get('ty') or {}
            if ty.get('b') or ty.get('int') and n['q'] in self.counters():
                return ('f', n['q'])
        return None

    def whole(self, n):
        """The container a page or a file keeps that n names."""
        n = strip(n)
        if n.get('k') == 'field' and n.get('rec') in self.ints:
            return n['q']
        return None

    def counters(self):
        """The numbers of a page or a file that change and reach its text."""
        if not hasattr(self, '_counters'):
            used, changed = set(), set()

            def ints(n):
                for x in walk(n):
                    if x.get('k') == 'field' and x.get('rec') in self.ints and (x.get('ty') or {}).get('int') and not x['ty'].get('ch'):
                        yield x['q']
            for f in self.fns:
                if f.cls not in self.tracked:
                    continue
                for n in f.nodes():
                    e = self.emission(n)
                    if e is not None:
                        used.update(ints(e))
                    elif n.get('k') == 'decl':
                        for v in n['c']:
                            if v.get('init'):
                                used.update(ints(v['init']))
                    elif n.get('k') == 'bin' and n['op'] == '=':
                        used.update(ints(n['c'][1]))
                    elif n.get('k') == 'ret' and n.get('e'):
                        used.update(ints(n['e']))
                    elif self.table(n):
                        used.update(ints(n))
                    if n.get('k') == 'bin' and n['op'] in ASSIGN or n.get('k') == 'un' and ('++' in n['op'] or '--' in n['op']):
                        l = strip(n['c'][0])
                        if l.get('k') == 'field':
                            changed.add(l['q'])
            self._counters = used & changed
        return self._counters

    def find_relevant(self):
        direct, calls = set(), {}
        for f in self.fns:
            cs = set()
            for n in f.nodes():
                if self.emission(n) or self.position(n) and f.cls in self.tracked or n.get('k') == 'call' and n.get('n') in ('put', 'write', 'setf', 'unsetf', 'fill', 'width', 'copy') and f.cls in self.tracked:
                    direct.add(f.usr)
                w = None
                if n.get('k') == 'bin' and n['op'] in ASSIGN or n.get('k') == 'un' and ('++' in n['op'] or '--' in n['op']):
                    w = n['c'][0]
                if w is not None and self.field(w):
                    direct.add(f.usr)
                if n.get('k') in ('call', 'ctor') and n.get('fn'):
                    cs.add(n['fn'])
            if f.cls in self.tracked and (f.d.get('dtor') or f.n == f.cls.split('::')[-1]):
                direct.add(f.usr)
            calls[f.usr] = cs
        rev = {}
        for a, cs in calls.items():
            for c in cs:
                rev.setdefault(c, set()).add(a)
        todo = list(direct)
        while todo:
            x = todo.pop()
            for y in rev.get(x, ()):
                if y not in direct:
                    direct.add(y); todo.append(y)
        return direct

    def find_chars(self):
        """Character fields: the values they are ever given."""
        args = {}
        for f in self.fns:
            for n in f.nodes():
                if n.get('k') in ('call', 'ctor') and n.get('fn'):
                    args.setdefault(n['fn'], []).append(n)
        out = {}

        def vals(e, f):
            e = strip(e)
            if e.get('k') == 'chr':
                return {e['v']}
            if e.get('k') == 'cond':
                a, b = vals(e['c'][1], f), vals(e['c'][2], f)
                return None if a is None or b is None else a | b
            if e.get('k') == 'var' and e.get('dk') == 'param':
                i = [k for k, p in enumerate(f.params) if p['id'] == e['id']]
                res = set()
                for c in args.get(f.usr, []):
                    if not i or len(c.get('a') or []) <= i[0]:
                        return None
                    x = strip(c['a'][i[0]])
                    if x.get('k') != 'chr':
                        return None
                    res.add(x['v'])
                return res
            return None
        for f in self.fns:
            for i in f.inits:
                fld = [x for r in [self.prog.rec_q.get(f.cls)] if r for x in r.fields if x['n'] == i.get('field')]
                if fld and ischar(fld[0]['ty']) and i.get('e'):
                    k = '%s::%s' % (f.cls, i['field'])
                    v = vals(i['e'], f)
                    out[k] = None if v is None or out.get(k, set()) is None else out.get(k, set()) | v
            for n in f.nodes():
                if n.get('k') == 'bin' and n['op'] in ASSIGN:
                    l = strip(n['c'][0])
                    if l.get('k') == 'field' and ischar(l.get('ty') or {}):
                        v = vals(n['c'][1], f) if n['op'] == '=' else None
                        k = l['q']
                        out[k] = None if v is None or out.get(k, set()) is None else out.get(k, set()) | v
        return out

    # -- text the caller supplies -------------------------------------------
    def find_taint(self):
        t = set()
        for r in self.pages + self.rows:
            for f in self.by_cls.get(r.q, []):
                if f.d.get('over') and f.d.get('acc') == 0:
                    for p in f.params:
                        if isstring(p['ty'].get('s') or ''):
                            t.add(('v', f.usr, p['id']))
        fns = [f for f in self.fns if f.usr in self.relevant or f.cls in self.tracked]
        while True:
            n0 = len(t)
            for f in fns:
                for n in f.nodes():
                    k = n.get('k')
                    if k == 'decl':
                        for v in n['c']:
                            if v.get('init') and self.tainted(v['init'], f, t, v.get('ty')):
                                t.add(('v', f.usr, v['id']))
                    elif k == 'rfor' and self.tainted(n['range'], f, t) and n.get('var'):
                        t.add(('v', f.usr, n['var']['id']))
                    elif k == 'bin' and n['op'] in ASSIGN or k == 'call' and n.get('op') in ('=', '+='):
                        ops = n['c'] if k == 'bin' else ([n['obj']] if n.get('obj') is not None else []) + list(n.get('a') or [])
                        if len(ops) == 2 and self.tainted(ops[1], f, t):
                            self.addroot(ops[0], f, t)
                    elif k == 'call' and n.get('n') in ('push_back', 'push_front', 'insert', 'emplace_back', 'append', 'assign') and n.get('obj') is not None:
                        if any(self.tainted(a, f, t) and isstring(tystr(strip(a))) for a in n.get('a') or []):
                            self.addroot(n['obj'], f, t)
                    if k in ('call', 'ctor') and n.get('fn'):
                        for g in self.prog.targets(n) if k == 'call' else [self.prog.fn(n['fn'])]:
                            if g is None or g.body is None or not g.file.startswith(REPO):
                                continue
                            for p, a in zip(g.params, n.get('a') or []):
                                if self.tainted(a, f, t, p['ty']):
                                    t.add(('v', g.usr, p['id']))
                for i in f.inits:
                    if i.get('e') and i.get('field') and f.cls and self.tainted(i['e'], f, t):
                        t.add(('f', '%s::%s' % (f.cls, i['field'])))
            if len(t) == n0:
                return t

    def addroot(self, l, f, t):
        l = strip(l)
        while True:
            if l.get('k') == 'field':
                t.add(('f', l['q'])); return
            if l.get('k') == 'var':
                if l.get('dk') != 'global':
                    t.add(('v', f.usr, l['id']))
                return
            ch = ([l['obj']] if l.get('obj') is not None else list(l.get('a') or [])[:1]) if l.get('k') == 'call' else l.get('c') or []
            if not ch:
                return
            l = strip(ch[0])

    def texty(self, ty):
        s = (ty or {}).get('s') or ''
        return isstring(s) or bool((ty or {}).get('ch')) or '__normal_iterator<' in s and 'char *' in s

    def tainted(self, n, f, t=None, ty=None):
        t = self.taint if t is None else t
        n = strip(n)
        if ty is not None and not self.texty(ty):
            return False
        k = n.get('k')
        if not self.texty(n.get('ty')) and k not in ('ctor',):
            return False
        if k == 'var':
            return ('v', f.usr, n.get('id')) in t and n.get('dk') != 'global'
        if k == 'field':
            return ('f', n['q']) in t
        if k == 'ctor':
            return any(self.tainted(a, f, t) for a in n.get('a') or [])
        if k == 'cond':
            return any(self.tainted(c, f, t) for c in n['c'][1:])
        if k in ('un', 'bin', 'idx'):
            return any(self.tainted(c, f, t) for c in n.get('c') or [])
        if k == 'call':
            if n.get('op') in ('*', '[]', '+', '++', '--', '+=', '->') or n.get('n') in ('begin', 'end', 'cbegin', 'cend', 'c_str', 'data', 'substr', 'at', 'front', 'back', 'str', 'rbegin', 'next', 'find'):
                return any(self.tainted(c, f, t) for c in ([n['obj']] if n.get('obj') is not None else []) + list(n.get('a') or []))
        return False

    def find_names(self):
        """Names the printing code itself defines: True for a procedure."""
        out = {}
        for f in self.fns:
            if f.usr in self.relevant:
                for n in f.nodes():
                    if n.get('k') == 'str':
                        for m in re.finditer(r'/([A-Za-z_]\w*)(\s*\{)?', n.get('v') or ''):
                            out[m.group(1)] = out.get(m.group(1), False) or bool(m.group(2))
        return out

    def find_prolog(self):
        procs = {}
        for g in self.prog.globals.values():
            if g.get('init') and str(g.get('file') or '').startswith(REPO):
                for n in walk(g['init']):
                    if n.get('k') == 'str' and '%%BeginProlog' in (n.get('v') or ''):
                        try:
                            procs.update(prolog(n['v'], set(self.names)))
                        except Bad as e:
                            self.prolog_bad.append((g, e.msg))
        return procs


class Give(Exception):
    pass


# -- values: True/False, Lin, ('rng',lo,hi), ('mask',m), ('lit',text), 'here', ('at',word), 'stream', 'len', ('off',lin)
def rng(v):
    if isinstance(v, Lin):
        return (v.c, v.c) if v.const else (None, None)
    if isinstance(v, tuple) and v and v[0] == 'rng':
        return v[1], v[2]
    return None, None


class St:
    """out, sorted environment"""
    __slots__ = ('o', 'e', 'h')

    def __init__(self, o, e):
        self.o, self.e = o, e
        self.h = hash((o, e))

    def __hash__(self):
        return self.h

    def __eq__(self, x):
        return self.h == x.h and self.o == x.o and self.e == x.e

    def get(self, k):
        for a, b in self.e:
            if a == k:
                return b
        return None

    def put(self, k, v):
        if k is None:
            return self
        e = frozenset(x for x in self.e if x[0] != k)
        if v is not None:
            e |= {(k, v)}
        return St(self.o, e)

    def out(self, **kw):
        return St(self.o._replace(**kw), self.e)


def lins(x, acc):
    """Skeleton of x with its Lins replaced by holes; the Lins in order."""
    if isinstance(x, Lin):
        acc.append(x)
        return '#'
    if isinstance(x, frozenset):
        parts = []
        for y in x:
            a = []
            parts.append((repr(lins(y, a)), a, y))
        parts.sort(key=lambda p: (p[0], repr(p[1])))
        return ('fs',) + tuple(lins(p[2], acc) for p in parts)
    if isinstance(x, tuple):
        return tuple(lins(y, acc) for y in x)
    return x


def fill(x, it):
    if isinstance(x, Lin):
        return next(it)
    if isinstance(x, frozenset):
        parts = []
        for y in x:
            a = []
            parts.append((repr(lins(y, a)), repr(a), a, y))
        parts.sort(key=lambda p: (p[0], p[1]))
        return frozenset(fill(p[3], it) for p in parts)
    if isinstance(x, tuple):
        vals = [fill(y, it) for y in x]
        return type(x)(*vals) if hasattr(x, '_fields') else tuple(vals)
    return x


def shape(st):
    acc = []
    sk = lins((tuple(st.o), st.e), acc)
    return sk, tuple(acc)


def remade(st, new):
    it = iter(new)
    o = fill(tuple(st.o), it)
    e = fill(st.e, it)
    e = frozenset((k, v) for k, v in e if v is not None)
    return St(type(st.o)(*o), e)


class Ends:
    def __init__(self):
        self.known = {}


class Printing(Flow):
    MAX_STATES = 1500

    def __init__(self, w, lang=None):
        super().__init__(w.prog)
        self.w = w
        self.paper = Paper(w.procs, w.names)
        self.stack = []
        self.bad = {}
        self.count = {}
        self.memo = {}
        self.unknown = set()
        self.budget = 400000

    @property
    def fn(self):
        return self.stack[-1]

    # -- values --------------------------------------------------------------
    def key(self, n):
        n = strip(n)
        if n.get('k') == 'var' and n.get('dk') in ('local', 'param') and not n.get('static'):
            return ('v', self.fn.usr, n['id'])
        return self.w.field(n)

    def here(self, st):
        if st.o.stream:
            return 'stream'
        if st.o.col0:
            return 'here'
        return 'mid'

    def val(self, n, st):
        if n is None:
            return None
        n = strip(n)
        k = n.get('k')
        if k == 'bool':
            return bool(n['v'])
        if k == 'int':
            return L(n['v'])
        if k == 'chr':
            return ('mask', 1 << (n['v'] & 255))
        if k == 'str':
            return ('lit', n['v'])
        if k == 'var' and ischar(n.get('ty') or {}) and n.get('dk') != 'global':
            return self.charval(n, st)
        if k in ('var', 'field'):
            kk = self.key(n)
            if kk:
                return st.get(kk)
            if k == 'field' and ischar(n.get('ty') or {}):
                c = self.w.charsets.get(n['q'])
                if c:
                    return ('mask', sum(1 << (x & 255) for x in c))
            return None
        if k == 'un':
            v = self.val(n['c'][0], st)
            if n['op'] == '-' and isinstance(v, Lin):
                return v.times(-1)
            if n['op'] == '!' and isinstance(v, bool):
                return not v
            if n['op'] in ('pre++', 'pre--'):
                return v
            if n['op'] in ('post++', 'post--') and isinstance(v, Lin):
                return v - L(1) if '++' in n['op'] else v + L(1)
            if n['op'] == '*' and (ischar(n.get('ty') or {})):
                return self.charval(n, st)
            return None
        if k == 'bin':
            if n['op'] == '=':
                return self.val(n['c'][0], st) if self.key(n['c'][0]) else self.val(n['c'][1], st)
            if n['op'] == ',':
                return self.val(n['c'][1], st)
            a, b = self.val(n['c'][0], st), self.val(n['c'][1], st)
            if n['op'] == '-' and a in ('mid', 'here', 'stream') and b == 'spos' and (a == self.here(st) or a == 'mid'):
                return 'lenq'
            if n['op'] == '-' and a in ('epos', 'spos', 'here') and b == 'spos':
                return 'len'
            if isinstance(a, Lin) and isinstance(b, Lin):
                if n['op'] == '+':
                    return a + b
                if n['op'] == '-':
                    return a - b
                if n['op'] == '*' and b.const:
                    return a.times(b.c)
                if n['op'] == '*' and a.const:
                    return b.times(a.c)
            return None
        if k == 'ctor' and len(n.get('a') or []) == 1:
            v = self.val(n['a'][0], st)
            return v if isinstance(v, tuple) and v and v[0] == 'it' else None
        if k == 'call':
            if self.w.position(n):
                return self.here(st)
            if n.get('n') in ('begin', 'cbegin') and n.get('obj') is not None and self.w.whole(n['obj']):
                return ('it', self.w.whole(n['obj']), 0)
            if n.get('op') in ('++', 'pre++', '='):
                a = ([n['obj']] if n.get('obj') is not None else []) + list(n.get('a') or [])
                v = self.val(a[0], st) if a else None
                if isinstance(v, tuple) and v and v[0] == 'it' and len(a) == (2 if n['op'] == '=' else 1):
                    return v if n['op'] == '=' or self.key(a[0]) else ('it', v[1], v[2] + 1)
            t = self.w.table(n)
            if t:
                v = self.val(t[1], st)
                return ('off', v if isinstance(v, Lin) else None)
            if n.get('op') == '*' and ischar(n.get('ty') or {}) or n.get('op') == '[]' and ischar(n.get('ty') or {}):
                return self.charval(n, st)
            f = self.prog.fn(n['fn']) if n.get('fn') else None
            if f and f.body is not None and not n.get('virt') and not f.params:
                b = [s for s in f.body.get('c') or [] if s]
                if len(b) == 1 and b[0].get('k') == 'ret' and b[0].get('e'):
                    e = strip(b[0]['e'])
                    if e.get('k') == 'field' and self.w.field(e):
                        return st.get(self.w.field(e))
            return st.get(('r', self.fn.usr, id(n)))
        if k == 'idx':
            t = self.w.table(n)
            if t:
                v = self.val(t[1], st)
                return ('off', v if isinstance(v, Lin) else None)
            if ischar(n.get('ty') or {}):
                return self.charval(n, st)
        return None

    def charkey(self, n):
        """A key for facts about the character an expression reads."""
        n = strip(n)
        if n.get('k') == 'var' and n.get('dk') != 'global':
            return ('c', self.fn.usr, n['id'])
        ops = n.get('c') if n.get('k') in ('un', 'idx') else ([n['obj']] if n.get('obj') is not None else []) + list(n.get('a') or [])
        ids = []
        for o in ops or []:
            o = strip(o)
            if o.get('k') == 'var' and o.get('dk') != 'global':
                ids.append(o['id'])
            elif o.get('k') == 'int':
                ids.append('#%d' % o['v'])
            else:
                return None
        return ('c', self.fn.usr) + tuple(ids) + ('*',)

    def charval(self, n, st):
        k = self.charkey(n)
        return ('mask', st.get(k) if k and st.get(k) is not None else ALL)

    def charof(self, n):
        """The character expression below widenings; whether it was made
        unsigned on the way."""
        uns = False
        while n.get('k') in ('cast', 'icast') and len(n.get('c') or []) == 1:
            if ischar(n.get('ty') or {}) and (n['ty'].get('int') == 'u' or 'unsigned' in tystr(n)):
                uns = True
            n = n['c'][0]
        while n.get('k') == 'call' and n.get('n') in ('to_int_type', 'toupper') and n.get('a'):
            n = n['a'][0]; uns = True
        ty = n.get('ty') or {}
        if n.get('k') == 'bin' and n['op'] == '&' and strip(n['c'][1]).get('v') in (255, 0xff):
            c, _ = self.charof(n['c'][0])
            return c, True
        if not ischar(ty):
            return None, uns
        if ty.get('int') == 'u' or 'unsigned' in tystr(n):
            uns = True
        return n, uns

    # -- emission ------------------------------------------------------------
    def note(self, clause, n, msg):
        self.bad.setdefault((clause, self.fn.at(n), self.fn.n), msg)

    def send(self, n, x, st):
        """States after one piece of output."""
        o = st.o
        nl = x == '\n'
        first = o.first
        try:
            o2 = self.paper.feed(o, x)
        except Bad as e:
            self.note(e.clause, n, e.msg)
            return ()
        if 'mid' in o2.note:
            if o2.mode == 'c' and len(o2.cmt) == 2 and o2.cmt[1] == '%':
                self.note('comments', n, 'a %% comment does not start its line')
                return ()
            if o2.mode == 'n':
                o2 = o2._replace(note=o2.note - {'mid'})
        e = st.e
        if nl or o2.stream:
            if nl:
                first = o2.first or o2.ended or first
                o2 = o2._replace(ended=None)
                w = plainfirst(o, first)
                e = frozenset((k, ('at', w) if v == 'here' else v) for k, v in e)
        elif o.lenmark != o2.lenmark and False:
            pass
        return (St(o2, e),)

    def text(self, n, s, st):
        S = {st}
        for c in s:
            T = set()
            for x in S:
                T.update(self.send(n, c, x))
            S = T
        return S

    def emit(self, n, e, st):
        """n inserts e."""
        self.count[('emission', self.fn.at(n))] = self.count.get(('emission', self.fn.at(n)), 0) + 1
        raw = e
        e = strip(e)
        k = e.get('k')
        ty = e.get('ty') or {}
        o = st.o
        if k == 'fref' or k == 'var' and e.get('dk') == 'global' and '(&)(' in tystr(e):
            m = e.get('n')
            if m in ('oct', 'dec', 'hex'):
                return {st.out(base={'oct': 8, 'dec': 10, 'hex': 16}[m])}
            if m == 'fixed':
                return {st.out(fixed=True)}
            if m in ('scientific', 'defaultfloat', 'hexfloat'):
                return {st.out(fixed=False)}
            if m == 'endl':
                return self.text(n, '\n', st)
            return {st}
        if k == 'call' and e.get('n') in ('setw', 'setfill', 'setprecision', 'setbase', 'setiosflags', 'resetiosflags') and (e.get('q') or '').startswith('std::'):
            a = strip(e['a'][0]) if e.get('a') else {}
            v = self.val(a, st)
            if e['n'] == 'setw':
                return {st.out(width=v.c if isinstance(v, Lin) and v.const else -1)}
            if e['n'] == 'setfill':
                return {st.out(fill=chr(a['v']) if a.get('k') in ('chr', 'int') else '?')}
            if e['n'] == 'setbase':
                return {st.out(base=v.c if isinstance(v, Lin) and v.const else 0)}
            return {st}
        if k == 'cond':
            out = set()
            c = self.val(e['c'][0], st)
            for j in (1, 2):
                if isinstance(c, bool) and c != (j == 1):
                    continue
                out |= self.emit(n, e['c'][j], st)
            return out
        st1 = st.out(width=0)
        w = o.width
        if k == 'str':
            return self.text(n, e['v'], st1)
        if k == 'chr':
            return self.text(n, chr(e['v']), st1)
        if ischar(strip1(raw).get('ty') or {}) and ischar(ty):
            v = self.val(e, st)
            m = v[1] if isinstance(v, tuple) and v[0] == 'mask' else ALL
            t = self.w.tainted(e, self.fn)
            if bin(m).count('1') <= 4:
                out = set()
                for c in range(256):
                    if m >> c & 1:
                        out |= self.text(n, chr(c), st1)
                return out
            if t:
                self.count[('raw', self.fn.at(n))] = 1
            return set(self.send(n, Txt(t, m, True), st1))
        r = strip1(raw).get('ty') or {}
        if not r.get('ptr') and not r.get('arr') and (r.get('int') or r.get('flt') or r.get('b')):
            v = self.val(e, st)
            neg = False
            c, uns = self.charof(strip1(raw))
            if c is not None:
                cv = self.charval(c, st)
                neg = not uns and bool(cv[1] >> 128)
                if o.mode == 'e':
                    self.count[('code', self.fn.at(n))] = 1
            tag = None
            lin = None
            if isinstance(v, Lin):
                lin = v
            elif isinstance(v, tuple) and v[0] == 'off':
                tag = v
            elif v in ('lenq', 'len'):
                tag = 'len'
            elif isinstance(v, tuple) and v[0] == 'at' and v[1] == 'xref':
                tag = 'xref'
            flt = bool(r.get('flt'))
            return set(self.send(n, Num(lin, tag, w, o.fill, o.base if not flt else 10, flt, neg), st1))
        if isstring(tystr(e)) or r.get('ptr'):
            g = self.literal(e)
            if g is not None:
                return self.text(n, g, st1)
            v = self.val(e, st)
            if isinstance(v, tuple) and v[0] == 'lit':
                return self.text(n, v[1], st1)
            return set(self.send(n, Txt(self.w.tainted(e, self.fn), ALL, False), st1))
        return set(self.send(n, Txt(False, ALL, False), st1))

    def literal(self, e):
        """The text of a constant string defined with one."""
        e = strip(e)
        if e.get('k') == 'var' and e.get('usr') or e.get('k') in ('field', 'var') and e.get('dk') == 'global':
            g = self.prog.globals.get(e.get('usr'))
            if g and g.get('init') and (g.get('ty') or {}).get('const'):
                ls = [x for x in walk(g['init']) if x.get('k') == 'str']
                if len(ls) == 1:
                    return ls[0]['v']
        return None

    # -- transfer ------------------------------------------------------------
    def leaf(self, n, st):
        self.budget -= 1
        if self.budget < 0:
            raise Unsupported('too much to follow')
        k = n.get('k')
        e = self.w.emission(n)
        if e is not None:
            return self.emit(n, e, st)
        m = self.w.mark(n)
        if m:
            i, v = self.val(m[0], st), self.val(m[1], st)
            i = i if isinstance(i, Lin) else None
            if v == 'here':
                return (st.out(linemarks=st.o.linemarks | {i}),)
            if v == ('at', 'obj') and st.o.cur and (i is None or i == st.o.cur[0]):
                return (st.out(cur=st.o.cur[:1] + (True,) + st.o.cur[2:]),)
            return (st,)
        if k == 'bin' and n['op'] in ASSIGN or k == 'un' and ('++' in n['op'] or '--' in n['op']):
            return (self.assign(n, st),)
        if k == 'call' and n.get('op') in ('++', '--', '=', '+=', '-=', 'post++', 'pre++') and 'iterator' in tystr((([n['obj']] if n.get('obj') is not None else []) + list(n.get('a') or [{}]))[0]):
            return self.advance(n, st)
        if k == 'call':
            return self.call(n, st)
        if k == 'ctor':
            return self.call(n, st)
        return (st,)

    def advance(self, n, st):
        a = ([n['obj']] if n.get('obj') is not None else []) + list(n.get('a') or [])
        st = self.forget(a[0], st)
        kk = self.key(a[0])
        if not kk or kk[0] != 'v':
            return (st,)
        if n['op'] == '=':
            v = self.val(a[1], st)
        else:
            v = st.get(kk)
            v = ('it', v[1], v[2] + 1) if '++' in n['op'] and isinstance(v, tuple) and v[0] == 'it' and v[2] <= self.SIZES else None
        return (st.put(kk, v if isinstance(v, tuple) and v[0] == 'it' else None),)

    def ended(self, n, st):
        """(states in which two iterators are equal, states in which they are not)
        for n comparing one with the end, or None."""
        a = ([n['obj']] if n.get('obj') is not None else []) + list(n.get('a') or [])
        if len(a) != 2:
            return None
        for x, y in (a, a[::-1]):
            v = self.val(x, st)
            e = [z for z in walk(y) if z.get('k') == 'call' and z.get('n') in ('end', 'cend')]
            if isinstance(v, tuple) and v and v[0] == 'it' and len(e) == 1 and e[0].get('obj') is not None and self.w.whole(e[0]['obj']) == v[1]:
                k = ('f', '#' + v[1])
                size = st.get(k)
                if size is not None:
                    return ((st,), ()) if v[2] >= size else ((), (st,))
                if v[2] >= self.SIZES:
                    return (st.put(k, v[2]),), ()
                return (st.put(k, v[2]),), tuple(st.put(k, z) for z in range(v[2] + 1, self.SIZES + 1))
        return None

    def forget(self, n, st):
        n = strip(n)
        if n.get('k') == 'var' and n.get('dk') != 'global':
            i = n['id']
            e = frozenset(x for x in st.e if not (x[0][0] == 'c' and x[0][1] == self.fn.usr and i in x[0][2:]))
            if len(e) != len(st.e):
                return St(st.o, e)
        return st

    def store(self, v):
        return 'spos' if v == 'stream' else 'epos' if v == 'mid' else v

    def assign(self, n, st):
        lhs = n['c'][0]
        kk = self.key(lhs)
        op = n['op']
        ty = strip(lhs).get('ty') or {}
        if op == '=':
            v = self.val(n['c'][1], st)
            if v == 'lenq' or v in ('mid', 'here', 'stream') and st.o.nest and st.o.nest[-1][0] == 'stream':
                st = st.out(lenmark='clean')
            v = self.store(v)
        elif op in ('pre++', 'post++', 'pre--', 'post--', '+=', '-='):
            v = self.val(lhs, st)
            d = L(1) if op[-2:] in ('++', '--') else self.val(n['c'][1], st)
            if isinstance(v, Lin) and isinstance(d, Lin):
                v = v + d if '+' in op else v - d
            elif isinstance(v, tuple) and v and v[0] == 'rng' and isinstance(d, Lin) and d.const:
                s = d.c if '+' in op else -d.c
                lo = None if v[1] is None else v[1] + s
                hi = None if v[2] is None else v[2] + s
                v = ('rng', lo if lo is None or abs(lo) < CAP else None, hi if hi is None or abs(hi) < CAP else None)
                if v[1] is None and v[2] is None:
                    v = None
            else:
                v = None
            if isinstance(v, Lin) and strip(lhs).get('k') == 'var' and v.const and abs(v.c) > CAP:
                v = None
        else:
            v = None
        st = self.forget(lhs, st)
        if kk and kk[0] == 'v' and kk in self.loopvars():
            return st
        if ischar(ty):
            ck = self.charkey(lhs) if strip(lhs).get('k') == 'var' else None
            if ck:
                return st.put(ck, v[1] if isinstance(v, tuple) and v[0] == 'mask' else None)
            return st
        if not kk:
            return st
        if not (ty.get('b') or ty.get('int')) and not (ty.get('ptr') and op == '=' and isinstance(v, tuple) and v[0] == 'lit'):
            v = None
        return st.put(kk, v)

    def loopvars(self):
        return getattr(self, '_lv', ())

    def declare(self, v, st):
        ty = v.get('ty') or {}
        if v.get('static'):
            return (st,)
        kk = ('v', self.fn.usr, v['id'])
        x = self.val(v['init'], st) if v.get('init') else None
        if x == 'lenq' or x in ('mid', 'here', 'stream') and st.o.nest and st.o.nest[-1][0] == 'stream':
            st = st.out(lenmark='clean')
        st = St(st.o, frozenset(y for y in st.e if not (y[0][0] == 'c' and y[0][1] == self.fn.usr and v['id'] in y[0][2:])))
        if ischar(ty):
            return (st.put(('c', self.fn.usr, v['id']), x[1] if isinstance(x, tuple) and x[0] == 'mask' else None),)
        if not (ty.get('b') or ty.get('int')) and not (isinstance(x, tuple) and x and x[0] in ('lit', 'it')):
            x = None
        return (st.put(kk, self.store(x)),)

    def leave(self, v, st):
        e = frozenset(y for y in st.e if not (y[0][0] in 'vc' and y[0][1] == self.fn.usr and v['id'] in y[0][2:]))
        return (St(st.o, e) if len(e) != len(st.e) else st,)

    def loop_var(self, n, st):
        v = n.get('var')
        if v:
            return self.leave(v, st)
        return (st,)

    def call(self, n, st):
        nm = n.get('n')
        o = n.get('obj')
        if o is not None and self.w.stream(base(o)):
            a = n.get('a') or []
            if nm in ('setf', 'unsetf') and a:
                names = {x.get('n') for x in walk(a[0])}
                if nm == 'setf':
                    if 'fixed' in names:
                        st = st.out(fixed=True)
                    elif 'floatfield' in {x.get('n') for y in a for x in walk(y)}:
                        st = st.out(fixed=False)
                    for b, v in (('oct', 8), ('hex', 16), ('dec', 10)):
                        if b in names:
                            st = st.out(base=v)
                else:
                    if names & {'fixed', 'floatfield'}:
                        st = st.out(fixed=False)
                    if names & {'oct', 'hex', 'basefield'}:
                        st = st.out(base=10)
                return (st,)
            if nm == 'fill' and a:
                return (st.out(fill=chr(strip(a[0])['v']) if strip(a[0]).get('k') in ('chr', 'int') else '?'),)
            if nm == 'width' and a:
                v = self.val(a[0], st)
                return (st.out(width=v.c if isinstance(v, Lin) and v.const else -1),)
            if nm == 'put' and a:
                return self.emit(n, a[0], st)
            if nm == 'write' and a:
                v = self.val(a[0], st)
                if isinstance(v, tuple) and v[0] == 'lit':
                    return self.text(n, v[1], st)
                return self.send(n, Txt(self.w.tainted(a[0], self.fn), ALL, False), st)
            if nm == 'flags' and a:
                return (st.out(base=10),)
        if nm == 'copy' and any('ostream_iterator' in tystr(x) for x in n.get('a') or []):
            out = {st}
            it = [x for x in n['a'] if 'ostream_iterator' in tystr(x)][0]
            for x in walk(it):
                if x.get('k') == 'ctor' and len(x.get('a') or []) == 2:
                    sep = strip(x['a'][1])
                    for s in self.send(n, Txt(False, ALL, False), st):
                        out |= self.text(n, sep.get('v') if sep.get('k') == 'str' else ' ', s)
            return out
        q = self.w.whole(o) if o is not None and not n.get('mc') and nm not in ('begin', 'end', 'find', 'rbegin', 'rend', 'at', 'lower_bound', 'front', 'back', 'size', 'empty') else None
        if q:
            st = st.put(('f', '#' + q), None)
        f = self.prog.fn(n['fn']) if n.get('fn') else None
        if f is None or f.body is None or f.usr not in self.w.relevant or not f.file.startswith(REPO):
            return (st,)
        if n.get('k') == 'ctor' and f.cls not in self.w.tracked:
            return (st,)
        if n.get('virt') and len(self.prog.targets(n)) > 1:
            return (st,)
        if f.cls in {r.q for r in self.w.rows} and (self.fn.cls not in {r.q for r in self.w.rows}) and self.fn.cls != f.cls and not n.get('obj'):
            return (st,)
        return self.inline(f, n, st)

    def inline(self, f, n, st):
        if f in self.stack:
            return (st,)
        args = {}
        for p, a in zip(f.params, n.get('a') or []):
            v = self.val(a, st)
            if v == 'lenq' or v in ('mid', 'here', 'stream') and st.o.nest and st.o.nest[-1][0] == 'stream':
                st = st.out(lenmark='clean')
            v = self.store(v)
            ty = p['ty']
            if ischar(ty) and not ty.get('ref'):
                if isinstance(v, tuple) and v[0] == 'mask':
                    args[('c', f.usr, p['id'])] = v[1]
            elif v is not None and not (isinstance(v, tuple) and v[0] == 'mask'):
                args[('v', f.usr, p['id'])] = v
        mine = frozenset(x for x in st.e if x[0][0] != 'f')
        fields = frozenset(x for x in st.e if x[0][0] == 'f')
        if any(v == 'here' for k, v in mine):
            fields = frozenset(x for x in fields if x[0] != ('f', '$here')) | {(('f', '$here'), 'here')}
        start = St(st.o, fields | frozenset(args.items()))
        mk = (f.usr, start, tuple(g.usr for g in self.stack))
        if mk not in self.memo:
            self.memo[mk] = self.body(f, start)
        out = set()
        for r in self.memo[mk]:
            ret = r.get('$ret')
            h = r.get(('f', '$here'))
            e = mine if h is None or h == 'here' else frozenset((k, h if v == 'here' else v) for k, v in mine)
            e |= frozenset(x for x in r.e if x[0][0] == 'f' and x[0] != ('f', '$here'))
            if st.get(('f', '$here')) is not None:
                e |= {(('f', '$here'), st.get(('f', '$here')) if h is None or h == 'here' else h)}
            s = St(r.o, e)
            k = ('r', self.fn.usr, id(n))
            out.add(s.put(k, ret) if ret is not None or s.get(k) is not None else s)
        return out

    def body(self, f, start):
        self.stack.append(f)
        lv = self.loopvars()
        try:
            X = self.run(f, {start})
        finally:
            self.stack.pop()
            self._lv = lv
        out = set()
        for s in X.ret:
            r = s.get('$ret')
            e = frozenset(x for x in s.e if x[0][0] == 'f')
            out.add(St(s.o, e).put('$ret', r))
        if f.d.get('dtor'):
            out = self.members(f, out)
        return out

    def members(self, f, S):
        r = self.prog.rec_q.get(f.cls)
        for fld in reversed(r.fields if r else []):
            c = fld['ty'].get('cls')
            if c in self.w.tracked and not fld['ty'].get('ref') and not fld['ty'].get('ptr'):
                for d in self.w.by_cls.get(c, []):
                    if d.d.get('dtor'):
                        T = set()
                        for s in S:
                            T |= self.body(d, s)
                        S = T
        return S

    def on_return(self, n, st):
        if n.get('e'):
            v = self.val(n['e'], st)
            if isinstance(v, (bool, Lin)):
                return (st.put('$ret', v),)
        return (st.put('$ret', None),)

    def init(self, fn, i, S):
        S = self.ev(i.get('e'), S)
        r = self.prog.rec_q.get(fn.cls)
        fld = [x for x in (r.fields if r else []) if x['n'] == i.get('field')]
        if fld and i.get('e'):
            ty = fld[0]['ty']
            if fn.cls in self.w.tracked and (ty.get('b') or '%s::%s' % (fn.cls, i['field']) in self.w.counters()):
                k = ('f', '%s::%s' % (fn.cls, i['field']))
                S = {s.put(k, self.store(self.val(i['e'], s))) for s in S}
        return S

    # -- conditions ----------------------------------------------------------
    def assume(self, n, truth, st):
        n = strip(n)
        v = self.val(n, st)
        ty = n.get('ty') or {}
        if isinstance(v, bool):
            return (st,) if v == truth else ()
        kk = self.key(n) if n.get('k') in ('var', 'field') else None
        if n.get('k') == 'call' and not kk:
            f = self.prog.fn(n['fn']) if n.get('fn') else None
            if f and f.body is not None and not f.params:
                b = [s for s in f.body.get('c') or [] if s]
                if len(b) == 1 and b[0].get('k') == 'ret' and b[0].get('e'):
                    kk = self.w.field(strip(b[0]['e'])) if strip(b[0]['e']).get('k') == 'field' else None
        if kk and ty.get('b'):
            return (st.put(kk, truth),)
        if kk and ty.get('int'):
            return self.cut(kk, '!=', 0, truth, st)
        if n.get('k') == 'call' and n.get('op') in ('==', '!='):
            r = self.ended(n, st)
            if r is not None:
                return r[0] if (n['op'] == '==') == truth else r[1]
        if n.get('k') == 'call' and n.get('n') == 'isprint' and n.get('a'):
            c, _ = self.charof(n['a'][0])
            if c is not None:
                return self.limit(c, PRINT if truth else ALL & ~PRINT, st)
            return (st,)
        if n.get('k') == 'call' and n.get('n') in ('isalnum', 'isalpha', 'isdigit') and n.get('a'):
            c, _ = self.charof(n['a'][0])
            if c is not None and truth:
                t = {'isalnum': str.isalnum, 'isalpha': str.isalpha, 'isdigit': str.isdigit}[n['n']]
                return self.limit(c, sum(1 << i for i in range(128) if t(chr(i))), st)
            return (st,)
        if n.get('k') == 'bin' and n['op'] in ('==', '!=', '<', '<=', '>', '>='):
            a, b, op = n['c'][0], n['c'][1], n['op']
            for x, y, p in ((a, b, op), (b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op))):
                c, uns = self.charof(x)
                cv = strip(y)
                if c is not None and cv.get('k') in ('chr', 'int') and c.get('k') != 'chr':
                    m = 0
                    for i in range(256):
                        s = i if uns or i < 128 else i - 256
                        t = {'==': s == cv['v'], '!=': s != cv['v'], '<': s < cv['v'], '<=': s <= cv['v'], '>': s > cv['v'], '>=': s >= cv['v']}[p]
                        if t == truth:
                            m |= 1 << i
                    return self.limit(c, m, st)
                k2 = self.key(x)
                yv = self.val(y, st)
                if k2 and (strip(x).get('ty') or {}).get('int') and isinstance(yv, Lin) and yv.const:
                    return self.cut(k2, p, yv.c, truth, st)
        return (st,)

    def cut(self, k, op, c, truth, st):
        v = st.get(k)
        if isinstance(v, Lin) and not v.const:
            return (st,)
        lo, hi = rng(v)
        if not truth:
            op = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}[op]
        if op == '!=':
            if lo == hi == c and lo is not None:
                return ()
            if lo == c:
                lo += 1
            elif hi == c:
                hi -= 1
        elif op == '==':
            if lo is not None and c < lo or hi is not None and c > hi:
                return ()
            lo = hi = c
        elif op in ('<', '<='):
            b = c - 1 if op == '<' else c
            hi = b if hi is None else min(hi, b)
        else:
            b = c + 1 if op == '>' else c
            lo = b if lo is None else max(lo, b)
        if lo is not None and hi is not None and lo > hi:
            return ()
        if isinstance(v, Lin):
            return (st,)
        if lo is not None and lo == hi:
            return (st.put(k, L(lo)),)
        return (st.put(k, ('rng', lo, hi)),)

    def limit(self, c, mask, st):
        c = strip(c)
        k = self.charkey(c)
        if not k:
            return (st,)
        m = self.charval(c, st)[1] & mask
        if not m:
            return ()
        return (st.put(k, m),)

    def assume_case(self, cond, case, st):
        c, uns = self.charof(cond)
        vals = [x.get('cv') for x in self._switch_cases if x.get('k') == 'case']
        if case.get('k') in ('default', 'nodefault'):
            en = (strip(cond).get('ty') or {}).get('enum')
            if case['k'] == 'nodefault' and en and en in self.prog.enums:
                all_ = {x.get('v') for x in self.prog.enums[en].get('c') or []}
                if all_ and all_ <= set(vals):
                    return ()
            if c is not None:
                return self.limit(c, ALL & ~sum(1 << (v & 255) for v in set(vals) if v is not None), st)
            kk = self.key(cond)
            v = self.val(cond, st)
            if isinstance(v, Lin) and v.const and v.c in vals:
                return ()
            return (st,)
        cv = case.get('cv')
        if c is not None and cv is not None:
            return self.limit(c, 1 << (cv & 255), st)
        kk = self.key(cond)
        if kk and cv is not None and (strip(cond).get('ty') or {}).get('int'):
            return self.cut(kk, '==', cv, True, st)
        return (st,)

    # -- loops ---------------------------------------------------------------
    SIZES = 2

    def sized(self, q, n, S, first, rest):
        """A loop over all of a container, for each size up to SIZES; a container
        that nothing has touched since has the size it had the last time."""
        out = set()
        for s in S:
            k = ('f', '#' + q)
            old = s.get(k)
            for size in ([old] if old is not None else range(self.SIZES + 1)):
                T = {s.put(k, size)}
                T = first(T)
                outer = self.x
                self.x = Exits()
                try:
                    brk = set()
                    for i in range(size):
                        T = self._scoped([n.get('b')], T)
                        T |= self.x.cont; self.x.cont = set()
                        brk |= self.x.brk; self.x.brk = set()
                        T = rest(T)
                    inner = self.x
                finally:
                    self.x = outer
                outer.ret |= inner.ret; outer.thr |= inner.thr
                out |= T | brk
        return out

    def s_rfor(self, n, S):
        q = self.w.whole(n.get('range') or {})
        if q and self.numbered(n):
            return self.sized(q, n, self.ev(n['range'], S), lambda T: self.many(lambda s: self.loop_var(n, s), T), lambda T: self.many(lambda s: self.loop_var(n, s), T))
        return super().s_rfor(n, S)

    def numbered(self, n):
        """Is a number that reaches the text changed in the loop?"""
        def any_(b, seen):
            for x in walk(b):
                if x.get('k') == 'un' and ('++' in x['op'] or '--' in x['op']) or x.get('k') == 'bin' and x['op'] in ASSIGN:
                    t = strip(x['c'][0])
                    if self.w.field(t) and (t.get('ty') or {}).get('int') or t.get('k') == 'var' and t.get('dk') == 'local' and (t.get('ty') or {}).get('int') and not seen:
                        return True
                if x.get('k') == 'call' and x.get('fn') and len(seen) < 3:
                    f = self.prog.fn(x['fn'])
                    if f is not None and f.body is not None and f.usr in self.w.relevant and f.usr not in seen and any_(f.body, seen | {f.usr}):
                        return True
            return False
        return self.fn.cls in self.w.ints and any_(n.get('b') or {'k': 'nop'}, frozenset())

    def s_for(self, n, S):
        c = self.counted(n)
        if not c:
            return super().s_for(n, S)
        var, start, bound, op = c
        kk = ('v', self.fn.usr, var)
        out = set()
        lv = self.loopvars()
        for s in S:
            for t in self.ex(n['init'], {s}):
                a = self.val(start, t)
                b = self.val(bound, t)
                a = a if isinstance(a, Lin) else None
                cnt = None
                if a is not None and isinstance(b, Lin):
                    cnt = b - a + (L(1) if op == '<=' else L(0))
                self._lv = tuple(lv) + (kk,)
                t = t.put(kk, Lin(0, 0, 1)).out(loops=t.o.loops + ((a, cnt),))

                def step(W):
                    T = self._scoped([n.get('b')], set(W))
                    T |= self.x.cont; self.x.cont = set()
                    return T, set(W)
                if cnt is not None and cnt.const and cnt.c <= 0:
                    R = {t}
                else:
                    R = self._loop({t}, step)
                self._lv = lv
                out |= {r.put(kk, None).out(loops=t.o.loops[:-1]) for r in R}
        self._lv = lv
        return out

    def counted(self, n):
        """for(i = a; i < b; ++i): its variable, start, bound and comparison."""
        i = n.get('init')
        c = n.get('cond') and strip(n['cond'])
        inc = n.get('inc') and strip(n['inc'])
        if not i or not c or not inc:
            return None
        if i.get('k') == 'decl' and len(i['c']) == 1 and i['c'][0].get('init') and (i['c'][0].get('ty') or {}).get('int'):
            var, start = i['c'][0]['id'], i['c'][0]['init']
        elif i.get('k') == 'bin' and i['op'] == '=' and strip(i['c'][0]).get('k') == 'var' and (strip(i['c'][0]).get('ty') or {}).get('int'):
            var, start = strip(i['c'][0]).get('id'), i['c'][1]
        else:
            return None

        def isv(x):
            x = strip(x)
            return x.get('k') == 'var' and x.get('dk') in ('local',) and x.get('id') == var
        if not (inc.get('k') == 'un' and '++' in inc['op'] and isv(inc['c'][0])):
            return None
        if not (c.get('k') == 'bin' and c['op'] in ('<', '<=') and isv(c['c'][0])):
            return None
        for x in walk(n.get('b') or {'k': 'nop'}):
            if x.get('k') == 'break' and False:
                return None
            if x.get('k') == 'bin' and x['op'] in ASSIGN and isv(x['c'][0]) or x.get('k') == 'un' and ('++' in x['op'] or '--' in x['op']) and isv(x['c'][0]):
                return None
        return var, start, c['c'][1], c['op']

    def _loop(self, S, step):
        """As the engine's, but what only counts the rounds is forgotten."""
        ends = Ends()
        it = [0]

        def widened(W):
            it[0] += 1
            out = set()
            for s in W:
                sk, v = shape(s)
                old = ends.known.get(sk)
                if old is None:
                    ends.known[sk] = v
                    out.add(s)
                elif old == v:
                    out.add(s)
                else:
                    new = [a if a == b else None for a, b in zip(old, v)]
                    out.add(remade(s, new))
            return out
        from ..flow import Exits
        outer = self.x
        seen = set()
        work = widened(S)
        out = set()
        while work:
            if it[0] > 60:
                raise Unsupported('loop does not converge')
            seen |= work
            self.x = Exits()
            try:
                again, leaving = step(work)
                inner = self.x
            finally:
                self.x = outer
            out |= leaving | inner.brk
            outer.ret |= inner.ret; outer.thr |= inner.thr
            work = widened(again - seen) - seen
            if len(seen) > self.MAX_STATES:
                raise Unsupported('too many abstract states')
        return out


def strip1(n):
    """Without reference and lvalue casts, keeping conversions of the value."""
    while n.get('k') in ('cast', 'icast') and n.get('ck') in ('NoOp', 'LValueToRValue') and len(n.get('c') or []) == 1:
        n = n['c'][0]
    return n


def plainfirst(o, first):
    return first if isinstance(first, str) else None


class Protocol:
    """The states between public calls, closed under all of them."""

    def __init__(self, w, rec, starts=None):
        self.w, self.rec = w, rec
        self.flow = Printing(w)
        self.methods = [f for f in w.by_cls.get(rec.q, []) if f.body is not None]
        self.ctors = [f for f in self.methods if f.n == rec.q.split('::')[-1] and not f.d.get('dtor') and not f.d.get('impl')]
        self.dtors = [f for f in self.methods if f.d.get('dtor')]
        self.public = [f for f in self.methods if f not in self.ctors and f not in self.dtors and f.d.get('acc') == 0 and f.usr in w.relevant and not f.d.get('static')]
        self.starts = starts
        self.states = {}       # shape -> [state, base vector, direction vector or None]
        self.lost = []

    def run_method(self, f, st):
        self.flow.stack = []
        self.flow._lv = ()
        try:
            return self.flow.body(f, st)
        except Unsupported as e:
            self.lost.append((f, str(e)))
            return set()

    def close(self, f, S):
        good = set()
        for s in S:
            try:
                self.flow.paper.rest(s.o)
            except Bad as e:
                self.flow.bad.setdefault((e.clause, f.at(), f.n), e.msg)
                continue
            s = s.put('$ret', None)
            good.add(St(s.o._replace(fill=s.o.fill, width=0, loops=()), frozenset(x for x in s.e if x[0][0] == 'f' and x[0][1][0] not in '#$')))
        return good

    def admit(self, s):
        """The states to explore for s, generalised over the page number."""
        sk, v = shape(s)
        k = self.states.get(sk)
        if k is None:
            self.states[sk] = [s, v, None]
            return [s]
        st, b, d = k
        if d is None:
            if v == b:
                return []
            diff = [y - x for x, y in zip(b, v)]
            if all(z.const for z in diff) and all(x.const for x in b):
                k[2] = [z.c for z in diff]
                g = remade(st, [Lin(x.c, z, 0) for x, z in zip(b, k[2])])
                k[0] = g
                return [g]
            k[2] = 'lost'
            g = remade(st, [x if x == y else None for x, y in zip(b, v)])
            return self.admit(g)
        if d == 'lost':
            g = remade(s, [x if x == y else None for x, y in zip(b, v)])
            if shape(g)[0] == sk:
                return []
            return self.admit(g)
        # on the line b + t*d, as a point or as the line shifted along itself?
        ts = set()
        for x, z, y in zip(b, d, v):
            if y.i or y.t not in (0, z):
                ts.add(None)
            elif z:
                q = (y.c - x.c) / z
                ts.add((q, y.t != 0) if q == int(q) and q >= 0 else None)
            elif y.c != x.c:
                ts.add(None)
        if None not in ts and len(ts) <= 1:
            return []
        k[2] = 'lost'
        g = remade(st, [x if not z and x == Lin(y.c, y.t, y.i) else None for x, z, y in zip(b, d, v)])
        return self.admit(g)

    def run(self):
        work = []
        for c in self.ctors:
            if len(c.params) == 1 and self.rec.q in (c.params[0]['ty'].get('s') or '') and 'ref' in c.params[0]['ty'] and self.starts is None:
                continue
            for s0 in (self.starts if self.starts is not None else [St(fresh()._replace(marking=self.w.marking), frozenset())]):
                for s in self.close(c, self.run_method(c, s0)):
                    work += self.admit(s)
        n = 0
        while work:
            s = work.pop(0)
            n += 1
            if n > 400:
                self.lost.append((self.ctors[0] if self.ctors else None, 'too many states between calls'))
                break
            for f in self.public:
                for t in self.close(f, self.run_method(f, s)):
                    work += self.admit(t)
        ends = set()
        states = [k[0] for k in self.states.values()]
        for d in self.dtors:
            for s in states:
                ends |= {(d, s, t) for t in self.run_method(d, s)}
        if not self.dtors:
            ends = {(None, s, s) for s in states}
        return states, ends


def check(prop):
    ck = Check(prop, 'the output of every constructor, public operation and destructor of the printing classes, pieced together along every path and every order of calls, '
                     'follows the grammar of PostScript or PDF: strings, procedures, objects, streams, graphics states and text objects are closed in order, every operator has its operands, '
                     'offsets and lengths are taken where the text they belong to begins and ends',
               ['pages are finished only when their rows are (the caller\'s part of the bargain)', 'what a row prints for its bells contains no bracket or backslash',
                'font names are single words'])
    w = World(load('lib'))
    bad, lost = {}, []
    for g, msg in w.prolog_bad:
        bad[('prolog', '%s:%s' % (g.get('file', '')[len(REPO) + 1:], g.get('line')), g.get('n'))] = msg
    if w.procs:
        ck.obligation('prolog', 'procedures of the prolog', True)
    for _ in w.procs:
        ck.count('prolog procedures')
    emitted, contexts = {}, {}
    for r in w.pages:
        p = Protocol(w, r)
        states, ends = p.run()
        ck.count('states of %s' % r.q.split('::')[-1], len(states))
        for d, s, t in ends:
            try:
                p.flow.paper.end(t.o)
            except Bad as e:
                p.flow.bad.setdefault((e.clause, d.at() if d else r.q, d.n if d else r.q), e.msg)
        ck.obligation('closed', r.q, None if p.lost else True, msg='; '.join('%s: %s' % (f.n if f else '', e) for f, e in p.lost[:3]))
        contexts[r.q] = states
        bad.update(p.flow.bad); lost += p.lost
        emitted.update(p.flow.count)
    for r in w.rows:
        page = [f['ty'].get('cls') for f in r.fields if f['ty'].get('cls') in contexts]
        if not page:
            ck.obligation('closed', r.q, None, msg='the page it prints on is not known')
            continue
        starts = {}
        for s in contexts[page[0]]:
            o = s.o
            o = o._replace(promise=frozenset(), note=frozenset())
            starts.setdefault((o.nest, o.lang), St(o, frozenset()))
        for s0 in starts.values():
            p = Protocol(w, r, [s0])
            states, ends = p.run()
            ck.count('states of %s' % r.q.split('::')[-1], len(states))
            for d, s, t in ends:
                if t.o.nest != s0.o.nest and d:
                    p.flow.bad.setdefault(('nesting', d.at(), d.n), 'a row is finished with %s open' % (t.o.nest[-1][0] if len(t.o.nest) > len(s0.o.nest) else 'too little'))
            ck.obligation('closed', r.q, None if p.lost else True, msg='; '.join('%s: %s' % (f.n if f else '', e) for f, e in p.lost[:3]))
            bad.update(p.flow.bad); lost += p.lost
            emitted.update(p.flow.count)
    where = {a for (c, a, n) in bad}
    for (kind, at), k in sorted(emitted.items()):
        ck.count({'emission': 'insertions', 'raw': 'characters of the caller\'s text', 'code': 'character codes'}[kind])
        if at not in where:
            ck.obligation('insertion' if kind == 'emission' else 'escaped', at, True)
    for (clause, at, name), msg in sorted(bad.items()):
        ck.obligation(clause, at, False, key='%s|%s|%s' % (at.split(':')[0], name, msg), msg='%s: %s' % (name, msg))
    ck.floor('insertion', 40)
    return ck.finish()

"""Every loop makes progress: no trip round a loop leaves as it was everything
that decides whether and how it goes round again, and a loop that reads a
stream ends when the stream does."""
import os
import re
from collections import namedtuple
from multiprocessing import Pool
from ..flow import Flow, Unsupported, Exits
from ..ir import load, walk, own, apps, belongs, REPO
from ..expr import strip, ASSIGN
from ..report import Check
from .. import throws

St = namedtuple('St', 'w r env val facts soft stm sym')
NEW = St(frozenset(), frozenset(), (), (), frozenset(), False, 2, ())
OK = 'ok'
HEAP = ('h',)
FIELDS = ('f', '*')
CHANGING = {'rand', 'random', 'time', 'clock', 'getchar', 'fgets', 'fgetc', 'getc', 'fread', 'read', 'wait', 'waitpid', 'longjmp', 'readline', 'strtok'}
CTYPE = {'isspace', 'isdigit', 'isalpha', 'isalnum', 'ispunct', 'isprint', 'isupper', 'islower', 'isxdigit', 'iscntrl', 'strchr', 'strcmp', 'strlen'}
SEEING = {'distance', 'find', 'find_if', 'count', 'count_if', 'accumulate', 'equal', 'lexicographical_compare', 'max_element', 'min_element', 'next', 'prev', 'search', 'lower_bound', 'upper_bound', 'binary_search', 'mismatch'}
LOOKING = {'begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'find', 'back', 'front', 'at', 'get', 'size', 'empty', 'top', 'data', 'c_str', 'lower_bound', 'upper_bound', 'equal_range',
           'operator[]', 'operator*', 'operator->', 'rdbuf', 'tellg', 'tellp', 'eof', 'good', 'fail', 'bad', 'base', 'str', 'count', 'peek'}


def ty(n):
    return (n or {}).get('ty') or {}


def s(n):
    return ty(n).get('s') or ''


def looking(n):
    o = n.get('obj')
    return n.get('n') in LOOKING and not (n.get('n') != 'peek' and o is not None and (instream(s(strip(o))) or 'streambuf' in s(strip(o))))


def outstream(t):
    return ('ostream' in t or 'ofstream' in t) and 'stringstream' not in t and 'iterator' not in t and 'iostream' not in t


def instream(t):
    return ('istream' in t or 'ifstream' in t or 'fstream' in t and 'ofstream' not in t) and 'iterator' not in t


def scalar(t):
    c = t.get('s') or ''
    if t.get('ref') or t.get('arr'):
        return False
    return bool(t.get('int') or t.get('b') or t.get('flt') or t.get('enum') or t.get('ptr') or 'iterator' in c)


class Eof(int):
    """What reading past the end gives."""


END = Eof(-1)


class Effects:
    """Functions that change nothing outside themselves; functions that may not
    come back."""

    def __init__(self, prog):
        self.prog = prog
        self.impure, self.leaving = set(), set()
        self.th = throws.of(prog)
        calls, rev = {}, {}
        for f in prog.real_fns():
            if f.body is None:
                continue
            if self.direct(f):
                self.impure.add(f.usr)
            for n in f.nodes():
                if n.get('k') in ('call', 'ctor') and n.get('fn'):
                    for t in self.targets(n):
                        rev.setdefault(t, set()).add(f.usr)
                    if n.get('k') == 'call' and (n.get('nr') or n.get('n') in ('exit', 'abort', '_exit')):
                        self.leaving.add(f.usr)
                elif n.get('k') == 'throw':
                    self.leaving.add(f.usr)
        for st in (self.impure, self.leaving):
            todo = list(st)
            while todo:
                x = todo.pop()
                for y in rev.get(x, ()):
                    if y not in st:
                        st.add(y); todo.append(y)

    def targets(self, n):
        if n.get('virt'):
            return [t.usr for t in self.prog.targets(n)] or [n['fn']]
        return [n['fn']]

    def direct(self, f):
        local = set()
        for n in f.nodes():
            if n.get('k') == 'decl':
                for v in n['c']:
                    if not ty(v).get('ref') and not v.get('static'):
                        local.add(v['id'])

        def mine(e):
            e = strip(e)
            while True:
                if e.get('k') == 'field' and not e.get('arrow'):
                    e = strip(e['b'])
                elif e.get('k') == 'idx' and ty(strip(e['c'][0])).get('arr'):
                    e = strip(e['c'][0])
                elif e.get('k') == 'call' and e.get('obj') is not None and e.get('op') == '[]':
                    e = strip(e['obj'])
                else:
                    break
            return e.get('k') == 'var' and (e.get('dk') == 'local' and e['id'] in local or e.get('dk') == 'param' and not ty(e).get('ref') and any(
                p['id'] == e['id'] and not p['ty'].get('ref') for p in f.params)) or e.get('k') in ('ctor', 'init', 'new')
        for n in f.nodes():
            k = n.get('k')
            if k == 'bin' and n['op'] in ASSIGN or k == 'un' and ('++' in n['op'] or '--' in n['op']):
                if not mine(n['c'][0]):
                    return True
            elif k in ('new', 'del', 'lambda'):
                return True
            elif k == 'call' and (n.get('n') in CHANGING or not n.get('fn') and not n.get('op')):
                return True
            elif k in ('call', 'ctor'):
                g = self.prog.fn(n['fn']) if n.get('fn') else None
                if n.get('obj') is not None and not n.get('mc') and not looking(n) and (g is None or g.body is None or not g.file.startswith(REPO)) and not mine(n['obj']):
                    return True
                if g is None or g.body is None or not g.file.startswith(REPO):
                    for a, p in zip(n.get('a') or [], n.get('pt') or []):
                        if changes(p) and not mine(a) and not (k == 'call' and n.get('op') == '<<' and False):
                            return True
        return False


def changes(p):
    """A parameter of this type lets the callee change the argument."""
    t = p.get('s') or ''
    return bool(p.get('ref')) and not p.get('const') and not t.startswith('const ') and '&&' not in t


class Trips(Flow):
    MAX_STATES = 600

    def __init__(self, prog, fx, eof=False):
        super().__init__(prog)
        self.fx, self.eof = fx, eof
        self.nodes = []
        self.done = {}          # id(loop) -> verdict
        self.fn = None
        self.depth = 0

    # -- reads -----------------------------------------------------------------
    def loc(self, n):
        """What a variable or field expression denotes."""
        k = n.get('k')
        if k == 'var':
            if n.get('dk') == 'global' or n.get('static') or n.get('id') is None:
                return None if ty(n).get('const') else ('g', n.get('usr') or n.get('q') or n.get('n'))
            if scalar(ty(n)) and n['id'] not in self.refs:
                return ('v', n['id'])
            return ('r' if n['id'] in self.refs else 'o', n['id'])
        if k == 'field':
            b = strip(n['b'])
            if b.get('k') == 'this':
                return ('f', n.get('q') or n['n'])
            if not n.get('arrow') and b.get('k') == 'var':
                return self.loc(b)
            return HEAP
        return HEAP

    def within(self, n, st):
        """The container an iterator was taken from, this trip."""
        n = strip(n)
        if n.get('k') != 'var':
            return None
        y = dict(st.sym).get(self.loc(n))
        return y[1] if y and y[0] == 'in' else None

    def reads(self, n, st):
        out = set()
        env = dict(st.env) if st is not None else {}
        plain = st is None
        st = st or NEW
        skip = set()

        def heap(of):
            x = self.within(of, st) if of is not None else None
            if x is None:
                out.add(HEAP)
            else:
                out.update(env.get(x, {x}))
        for x in walk(n):
            k = x.get('k')
            if id(x) in skip:
                continue
            if k == 'lambda':
                out.add(HEAP)
            if k == 'bin' and x['op'] == '=':
                skip.add(id(strip(x['c'][0])))
            if k == 'var' and x.get('dk') in ('local', 'param', 'global', 'static') or k == 'field' and strip(x['b']).get('k') == 'this':
                if self.eof and instream(s(x)):
                    continue
                l = self.loc(x)
                if l is None:
                    continue
                out |= env.get(l, {l})
            elif k == 'field':
                if strip(x['b']).get('k') != 'var' or x.get('arrow'):
                    heap(x['b'] if x.get('arrow') else None)
            elif k == 'un' and x['op'] == '*' or k == 'idx':
                heap(x['c'][0])
            elif k == 'call':
                if self.eof and self.streamy(x) is not None:
                    continue
                y = None if plain else self.symof(x, st)
                if y and y[0] == 'find':
                    out.add(('q', y[3]))
                    out.update(env.get(y[1], {y[1]}))
                    skip.update(id(z) for z in walk(x))
                    continue
                if x.get('op') == '[]' and x.get('obj') is not None and strip(x['obj']).get('k') in ('var', 'field') and not s(strip(x['obj'])).endswith('*'):
                    pass
                elif x.get('op') in ('*', '->', '[]') or x.get('arrow'):
                    a = ([x['obj']] if x.get('obj') is not None else []) + list(x.get('a') or [])
                    heap(a[0] if a else None)
                elif x.get('fn') and x['fn'] in self.fx.impure:
                    out.add(HEAP)
                elif x.get('obj') is not None and strip(x['obj']).get('k') == 'this' or x.get('fn') and self.ownfn(x):
                    if not (x.get('obj') is not None and strip(x['obj']).get('k') == 'var' and not x.get('a')):
                        out.add(HEAP)
        return frozenset(out)

    def symof(self, n, st):
        """What is known of a value: the same as a variable had at the head, or
        where a search from there comes to."""
        n = strip(n)
        k = n.get('k')
        if k in ('ctor', 'cast', 'icast') and len(n.get('a') or n.get('c') or []) == 1:
            return self.symof((n.get('a') or n.get('c'))[0], st)
        if k == 'var':
            l = self.loc(n)
            if l is None or l[0] not in 'vor':
                return None
            return dict(st.sym).get(l) if l in st.w else ('same', l)
        if k == 'call' and n.get('obj') is not None and strip(n['obj']).get('k') in ('var', 'field'):
            x = self.loc(strip(n['obj']))
            a = n.get('a') or []
            if x is None or x[0] not in 'of' and not (x[0] == 'r' and ty(strip(n['obj'])).get('const')):
                return None
            if n.get('n') in ('begin', 'end', 'cbegin', 'cend') and not a and x[0] != 'r':
                return ('in', x)
            if n.get('n') in ('find', 'find_first_of', 'find_first_not_of') and len(a) == 2 and 'string' in s(strip(n['obj'])):
                y = self.symof(a[1], st)
                c = strip(a[0]).get('v')
                if y and y[0] == 'same' and c is not None and x not in st.w:
                    return ('find', x, str(c), y[1])
        return None

    # -- streams at their end ----------------------------------------------------
    def streamy(self, n, st=NEW):
        """The value of an operation on a stream that has ended: st.stm is 0 until
        that has been noticed, 1 once seen, 2 once read past."""
        n = strip(n)
        m = st.stm
        if n.get('k') != 'call':
            return None
        o = n.get('obj')
        ot = s(strip(o)) if o is not None else ''
        nm = n.get('n')
        if o is not None and (instream(ot) or 'streambuf' in ot):
            if nm in ('get', 'peek', 'sgetc', 'sbumpc', 'snextc') and not n.get('a'):
                return END
            if nm == 'eof':
                return m >= 1
            if nm == 'fail':
                return m >= 2
            if nm == 'good':
                return m == 0
            if nm in ('operator bool', 'operator void *', 'operator!') or n.get('op') in ('!', 'bool'):
                return (nm == 'operator!' or n.get('op') == '!') == (m >= 2)
            if nm in ('get', 'getline', 'read', 'ignore', 'operator>>', 'putback', 'unget', 'readsome', 'ws') or n.get('op') == '>>':
                return 'stream'
        if n.get('op') == '!' and n.get('a') and instream(s(strip(n['a'][0]))):
            return m >= 2
        if (n.get('op') == '>>' or nm in ('getline', 'ws')) and n.get('a') and instream(s(strip(n['a'][0]))) and (nm == 'getline' or not self.ownfn(n)):
            return 'stream'
        if n.get('op') == '>>' and self.ownfn(n) and instream(s(n)):
            return 'stream'
        return None

    def ownfn(self, n):
        f = self.prog.fn(n['fn']) if n.get('fn') else None
        return f is not None and f.body is not None and f.file.startswith(REPO)

    def value(self, n, st):
        """True, False, an int or None."""
        if n is None:
            return None
        n = strip(n)
        k = n.get('k')
        if k in ('int', 'chr', 'bool', 'enum'):
            return n.get('v')
        if not self.eof:
            if k == 'un' and n['op'] == '!':
                v = self.value(n['c'][0], st)
                return None if v is None else not v
            return None
        if k == 'var':
            l = self.loc(n)
            if instream(s(n)):
                return 'stream'
            return dict(st.val).get(l)
        if k == 'field' and instream(s(n)):
            return 'stream'
        if k == 'un':
            v = self.value(n['c'][0], st)
            if n['op'] == '*' and instream(s(n)):
                return 'stream'
            if v is None or v == 'stream':
                return st.stm >= 2 if v == 'stream' and n['op'] == '!' else None
            return {'!': lambda: not v, '-': lambda: -v, '~': lambda: ~v}.get(n['op'], lambda: None)()
        if k == 'call':
            v = self.streamy(n, st)
            if v is not None:
                return v
            a = n.get('a') or []
            nm = n.get('n')
            if nm == 'eof' and not a:
                return END
            if nm in ('eq_int_type', 'eq') and len(a) == 2:
                x, y = self.value(a[0], st), self.value(a[1], st)
                return None if x is None or y is None else x == y
            if nm in ('to_char_type', 'to_int_type', 'toupper', 'tolower') and a:
                return self.value(a[0], st)
            if nm in ('isspace', 'isdigit', 'isalpha', 'isalnum', 'ispunct', 'isprint', 'isupper', 'islower', 'isxdigit', 'iscntrl') and a:
                return False if self.value(a[0], st) == -1 else None
            if nm in ('strchr', 'index') and len(a) == 2:
                return 0 if self.value(a[1], st) == -1 else None
            if n.get('op') in ('==', '!=') and any('istreambuf_iterator' in s(strip(x)) or 'istream_iterator' in s(strip(x)) for x in a + ([n['obj']] if n.get('obj') is not None else [])):
                return n['op'] == '=='
            return None
        if k == 'bin':
            if n['op'] == '=':
                return self.value(n['c'][1], st)
            if n['op'] == ',':
                return self.value(n['c'][1], st)
            a, b = self.value(n['c'][0], st), self.value(n['c'][1], st)
            if a in (None, 'stream') or b in (None, 'stream'):
                return None
            try:
                return {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b,
                        '+': lambda: a + b, '-': lambda: a - b, '&': lambda: a & b, '|': lambda: a | b}.get(n['op'], lambda: None)()
            except TypeError:
                return None
        return None

    # -- transfer ----------------------------------------------------------------
    def write(self, st, l, deps=None, val=None, sym=None, part=False):
        if l is None:
            return st
        old = dict(st.env)
        env = tuple(x for x in st.env if x[0] != l)
        plain = l[0] == 'f' or l[0] in 'vo' and l[1] not in self.taken
        if l[0] in 'hr':
            env = tuple(x for x in env if x[0][0] not in 'f' and not (x[0][0] in 'vo' and x[0][1] in self.taken))
        if deps is not None and plain and (not part or l in old):
            env += ((l, (deps | old[l]) if part else deps),)
        vs = tuple(x for x in st.val if x[0] != l)
        if val is not None and l[0] == 'v':
            vs += ((l, val),)
        sy = tuple(x for x in st.sym if x[0] != l and not (x[1][0] == 'find' and x[1][1] == l))
        if l[0] in 'hr':
            sy = tuple(x for x in sy if x[0][0] != 'r' and not (x[1][0] == 'same' and x[1][1][0] == 'r' and l[0] == 'h'))
        if sym is not None and (plain or l[0] == 'r'):
            sy += ((l, sym),)
        facts = frozenset(x for x in st.facts if not (self.clash({l}, x[-1])))
        return st._replace(w=st.w | {l}, env=tuple(sorted(env)), val=tuple(sorted(vs, key=repr)), facts=facts, sym=tuple(sorted(sy)))

    def writes(self, st, n, deps=None, part=True):
        """Something reached through this expression changes."""
        l = self.target(n)
        st = self.write(st, l, deps, part=part)
        if l in (HEAP, None) or l[0] == 'v':
            for x in walk(n):
                if x.get('k') == 'var' and x.get('dk') in ('local', 'param'):
                    y = self.loc(x)
                    if y is not None and y[0] == 'o' and y != l:
                        st = self.write(st, y, deps, part=part)
                elif x.get('k') == 'field' and strip(x['b']).get('k') == 'this':
                    st = self.write(st, self.loc(x))
        return st

    def handed(self, st, x):
        """An argument that is an iterator or a pointer: what it leads to may change."""
        t = s(strip(x))
        if 'iterator' in t or 'ptr' in ty(strip(x)) or '*' in t or 'inserter' in t:
            st = self.write(st, HEAP)
            for y in walk(x):
                if y.get('k') == 'var' and self.loc(y) is not None and self.loc(y)[0] == 'o':
                    st = self.write(st, self.loc(y))
        return st

    def target(self, n):
        n = strip(n)
        while n.get('k') == 'cond':
            return HEAP
        if n.get('k') == 'bin' and n['op'] in ASSIGN or n.get('k') == 'un' and n['op'] in ('pre++', 'pre--'):
            return self.target(n['c'][0])
        if n.get('k') in ('var', 'field'):
            return self.loc(n)
        if n.get('k') == 'idx' and strip(n['c'][0]).get('k') in ('var', 'field') and ty(strip(n['c'][0])).get('arr'):
            return self.loc(strip(n['c'][0]))
        if n.get('k') == 'call' and n.get('op') in ('++', '--', 'pre++', 'pre--', '=', '+=', '-=') :
            a = ([n['obj']] if n.get('obj') is not None else []) + list(n.get('a') or [])
            return self.target(a[0]) if a else HEAP
        return HEAP

    def leaf(self, n, st):
        if st == OK or not self.depth:
            return (st,)
        k = n.get('k')
        if k == 'bin' and n['op'] in ASSIGN:
            l = self.target(n['c'][0])
            d = self.reads(n['c'][1], st)
            if l == HEAP:
                return (self.writes(st, n['c'][0], d),)
            if n['op'] != '=':
                return (self.write(st, l, d | self.reads(n['c'][0], st)),)
            return (self.assigned(st, l, n['c'][1], self.write(st, l, d, self.value(n['c'][1], st) if self.eof else None, self.symof(n['c'][1], st))),)
        if k == 'un' and ('++' in n['op'] or '--' in n['op']):
            return (self.bump(st, n['c'][0], self.reads(n['c'][0], st)),)
        if k in ('lambda', 'new', 'del'):
            return (OK,) if k == 'lambda' else (st,)
        if k == 'call' or k == 'ctor':
            return (self.call(n, st),)
        return (st,)

    def bump(self, st, n, d):
        l = self.target(n)
        if l == HEAP:
            return self.writes(st, n, d)
        y = dict(st.sym).get(l)
        return self.write(st, l, d, sym=y if y and y[0] == 'in' else None)

    def call(self, n, st):
        nm, op = n.get('n'), n.get('op')
        if nm in CHANGING:
            return OK
        a = n.get('a') or []
        o = n.get('obj')
        if self.eof and (op in ('+=', '<<') or nm in ('push_back', 'append', 'put', 'sputc', 'insert')):
            for x in a[-1:]:
                if isinstance(self.value(x, st), Eof):
                    self.eaten.add(id(n))
        if self.eof:
            v = self.streamy(n)
            if v is not None:
                if nm in ('putback', 'unget'):
                    return OK
                if v == 'stream' or nm == 'get':
                    st = st._replace(stm=2)
                elif nm == 'peek':
                    st = st._replace(stm=max(st.stm, 1))
                for x, p in zip(a, n.get('pt') or []):
                    if changes(p) and not instream(p.get('s') or ''):
                        # what an extraction that fails leaves behind is the same each time
                        st = self.write(st, self.target(x), frozenset())
                if op == '>>' and a:
                    st = self.write(st, self.target(a[-1]), frozenset())
                return st
            if o is not None and instream(s(strip(o))) and nm in ('clear', 'seekg', 'open', 'close', 'setstate', 'rdbuf', 'exceptions'):
                return OK
            if self.ownfn(n) and any(instream(p.get('s') or '') or 'streambuf' in (p.get('s') or '') for p in n.get('pt') or []):
                return OK
        if n.get('k') == 'call' and not n.get('fn') and not op:
            return OK
        f = self.prog.fn(n['fn']) if n.get('fn') else None
        if f is not None and f.body is not None and f.file.startswith(REPO):
            ts = self.fx.targets(n)
            if not any(t in self.fx.impure for t in ts):
                if any(t in self.fx.leaving for t in ts):
                    st = st._replace(r=st.r | self.reads(n, st))
                return st
            if any(t in self.fx.leaving for t in ts):
                # it came back this time, and does again if nothing it looks at changes
                st = st._replace(r=st.r | self.reads(n, st) | {HEAP, FIELDS})
            st = self.write(st, HEAP)
            if o is not None and not n.get('mc'):
                st = self.writes(st, o)
            for x, p in zip(a, n.get('pt') or []):
                if changes(p) or p.get('ptr'):
                    st = self.writes(st, x)
                st = self.handed(st, x)
            return st
        if n.get('virt') or n.get('k') == 'call' and f is None and (n.get('q') or '').startswith('ringing'):
            return OK
        if op in ('()',) and not self.std(n):
            return OK
        # the standard library
        full = ([o] if o is not None else []) + list(a)
        if op == '<<' and full and outstream(s(strip(full[0])) or s(n)):
            return st
        if op == '=' and len(full) == 2:
            l = self.target(full[0])
            if l == HEAP:
                return self.writes(st, full[0], self.reads(full[1], st))
            return self.assigned(st, l, full[1], self.write(st, l, self.reads(full[1], st), sym=self.symof(full[1], st)))
        if op in ('++', '--', 'pre++', 'pre--', 'post++', 'post--', '+=', '-=') and full:
            return self.bump(st, full[0], self.reads(n, st))
        d = self.reads(n, st)
        if o is not None and not n.get('mc') and not looking(n) and not outstream(s(strip(o))):
            st = self.writes(st, o, d)
        pts = n.get('pt') or []
        if o is None and op and len(pts) != len(a):
            pts = []
        for i, x in enumerate(a):
            p = pts[i] if i < len(pts) else None
            if p is None:
                if op == '>>' or nm in ('swap', 'getline', 'advance'):
                    st = self.writes(st, x)
            elif changes(p) and not outstream(p.get('s') or ''):
                st = self.writes(st, x)
            elif p.get('ptr') and 'const' not in (p.get('s') or '') and n.get('k') == 'call':
                st = self.handed(self.write(st, HEAP), x)
            elif 'iterator' in (p.get('s') or '') and n.get('k') == 'call' and not op and o is None and nm not in SEEING:
                st = self.handed(st, x)
        return st

    def std(self, n):
        return (n.get('q') or '').startswith('std::')

    def declare(self, v, st):
        if st == OK or not self.depth:
            return (st,)
        if ty(v).get('ref') or v.get('static'):
            return (st,)
        l = ('v', v['id']) if scalar(ty(v)) else ('o', v['id'])
        if v.get('init'):
            return (self.assigned(st, l, v['init'], self.write(st, l, self.reads(v['init'], st), self.value(v['init'], st) if self.eof else None, self.symof(v['init'], st))),)
        return (self.write(st, l, frozenset()),)

    def leave(self, v, st):
        if st == OK or not self.depth:
            return (st,)
        ls = {('v', v['id']), ('o', v['id'])}
        return (st._replace(w=st.w - ls, env=tuple(x for x in st.env if x[0] not in ls), val=tuple(x for x in st.val if x[0] not in ls), sym=tuple(x for x in st.sym if x[0] not in ls)),)

    def assume(self, n, truth, st):
        if st == OK or not self.depth:
            return (st,)
        v = self.value(n, st)
        if v == 'stream':
            v = st.stm < 2
        if v is not None and not isinstance(v, str):
            if bool(v) != truth:
                return ()
            return (st,)
        r = self.reads(n, st)
        if self.eof and any(x.get('k') == 'call' and self.ownfn(x) and any(instream(p.get('s') or '') for p in x.get('pt') or []) for x in walk(n)):
            return (OK,)
        f = self.fact(n, truth, st)
        if f is not None:
            f += (self.reads(n, None),)
            if not consistent(st.facts | {f}):
                return ()
            if len(st.facts) < 16:
                st = st._replace(facts=st.facts | {f})
        return (st._replace(r=st.r | r),)

    def assume_case(self, cond, case, st):
        if st == OK or not self.depth:
            return (st,)
        v = self.value(cond, st)
        if v is not None and v != 'stream':
            cvs = [x.get('cv') for x in self._switch_cases if x.get('k') == 'case']
            if case.get('k') in ('default', 'nodefault'):
                return () if v in cvs else (st,)
            return (st,) if case.get('cv') == v else ()
        if case.get('k') == 'nodefault':
            en = ty(strip(cond)).get('enum')
            if en and en in self.prog.enums:
                vals = {x.get('v') for x in self.prog.enums[en].get('c') or []}
                if vals and vals <= {x.get('cv') for x in self._switch_cases if x.get('k') == 'case'}:
                    return ()
        return (st._replace(r=st.r | self.reads(cond, st)),)

    def loop_var(self, n, st):
        return (OK,) if st != OK else (st,)

    # -- loops -------------------------------------------------------------------
    def clash(self, w, r):
        for x in w:
            for y in r:
                if x == y:
                    return True
                a, b = x[0], y[0]
                if a in 'vo' or b in 'vo':
                    if a in 'vo' and b in 'vo':
                        continue
                    mine, other = (x, b) if a in 'vo' else (y, a)
                    if other in 'hr' and (mine[1] in self.taken or other == 'r' and mine[0] == 'o' and False):
                        return True
                    continue
                if a == b == 'f':
                    if '*' in (x[1], y[1]):
                        return True
                    continue
                if a == b == 'g' or {a, b} == {'f', 'g'}:
                    continue
                return True
        return False

    def next(self, st):
        """The start of another trip: what has been worked out stays worked out."""
        fs = frozenset(f[:1] + tuple(re.sub(r'<([^<>@]*)>', r'<\1@>', x) if isinstance(x, str) else x for x in f[1:])
                       for f in st.facts if '@' not in f[1] + f[2])
        return NEW._replace(env=st.env, val=st.val, stm=st.stm, facts=fs, sym=tuple(x for x in st.sym if x[1][0] == 'in'))

    def stays(self, st):
        """What a trip leaves otherwise than it was, in the long run."""
        out = set(st.w)
        for l, y in st.sym:
            if l in out and (y == ('same', l) or y[0] == 'find' and y[3] == l and y[1] not in st.w and l not in st.r and not (y[1][0] == 'r' and any(z[0] in 'hr' for z in st.w))):
                out.discard(l)
        if self.eof:
            env = dict(st.env)
            more = True
            while more:
                more = [l for l in out if l in env and not self.clash(out, env[l])]
                out.difference_update(more)
        return out

    def _loop(self, S, step):
        node = self.nodes[-1]
        if id(node) not in self.done and node.get('k') != 'rfor':
            self.done[id(node)] = None
            outer, d = self.x, self.depth
            self.x = Exits()
            self.depth = 1
            try:
                start = NEW._replace(stm=0) if self.eof == 'tail' else NEW
                again, leaving = step({start})
                if self.eof == 'tail':
                    # a second time, for what is only come to once the end has been seen
                    for _ in range(3):
                        again, leaving = step({t if t == OK else NEW._replace(stm=t.stm, val=t.val, env=t.env, w=t.w) for t in again})
                    again = set()
                if self.eof == 'steady':
                    first = {t for t in again if t != OK}
                    again, leaving = step({self.next(t) for t in first})
                v = True
                if os.environ.get('RL_LOOP') and self.fn.at(node).endswith(os.environ['RL_LOOP']):
                    for t in again:
                        print(self.eof, t)
                for t in again:
                    if t == OK or self.clash(self.stays(t), {x[1] if x[0] == 'q' else x for x in t.r}):
                        continue
                    if t.soft:
                        v = 'a walk inside it may find nothing'
                        continue
                    v = t
                    break
                self.done[id(node)] = v
            except Unsupported as e:
                self.done[id(node)] = str(e)
            finally:
                self.x, self.depth = outer, d
        if not self.depth:
            # only what lies inside is of interest
            outer = self.x
            self.x = Exits()
            try:
                step(set(S))
                inner = self.x
            finally:
                self.x = outer
            outer.ret |= inner.ret; outer.thr |= inner.thr
            return set(S)
        return super()._loop({self.settle(x) for x in S}, lambda W: self.settled(step(W)))

    def settled(self, p):
        return {self.settle(x) for x in p[0]}, {self.settle(x) for x in p[1]}

    def settle(self, st):
        """Inside a loop that is being judged: nothing more to learn once it progresses."""
        return st

    def s_while(self, n, S):
        return self.under(n, S, super().s_while)

    def s_do(self, n, S):
        return self.under(n, S, super().s_do)

    def s_for(self, n, S):
        return self.under(n, S, self.walkfor)

    def walkfor(self, n, S):
        vars_ = []
        if n.get('init'):
            S = self.ex(n['init'], S)
            if n['init'].get('k') == 'decl':
                vars_ = n['init']['c']
        entry = set(S)

        def step(W):
            T1, F1 = self.condev(n.get('cond'), W & entry)
            T, F = self.condev(n.get('cond'), W - entry)
            if n.get('init'):
                F1 = {x if x == OK else x._replace(soft=True) for x in F1}
            T = self._scoped([n.get('b')], T | T1)
            T |= self.x.cont; self.x.cont = set()
            if n.get('inc'):
                T = self.ev(n['inc'], T)
            return T, F | F1
        S = self._loop(S, step)
        for v in reversed(vars_):
            S = self.many(lambda s: self.leave(v, s), S)
        return S

    def s_rfor(self, n, S):
        return self.under(n, S, super().s_rfor)

    def under(self, n, S, go):
        self.nodes.append(n)
        try:
            return go(n, S)
        finally:
            self.nodes.pop()

    def take(self, n, ref=True):
        for x in walk(n or {'k': 'nop'}):
            if x.get('k') == 'var' and x.get('id') is not None and (ref or not scalar(ty(x))):
                self.taken.add(x['id'])

    def fact(self, n, truth, st):
        """('eq', a, b, truth) or ('is', a, '', truth) for a condition that can be
        written down, or None."""
        n = strip(n)
        k = n.get('k')
        if k == 'un' and n['op'] == '!':
            return self.fact(n['c'][0], not truth, st)
        op = n.get('op')
        if k in ('bin', 'call') and op in ('==', '!='):
            c = n['c'] if k == 'bin' else ([n['obj']] if n.get('obj') is not None else []) + list(n.get('a') or [])
            if len(c) == 2:
                a, b = sorted([self.text(c[0], st) or '', self.text(c[1], st) or ''])
                if a and b:
                    return ('eq', a, b, truth == (op == '=='))
        t = self.text(n, st)
        if t and k in ('var', 'field') and scalar(ty(n)):
            return ('eq', '#0', t, not truth)
        return t and ('is', t, '', truth)

    def text(self, n, st):
        """A text for an expression without effects, or None."""
        n = strip(n)
        k = n.get('k')
        if k in ('icast', 'cast') and len(n.get('c') or []) == 1:
            return self.text(n['c'][0], st)
        if k == 'var' or k == 'field' and strip(n['b']).get('k') == 'this':
            l = self.loc(n)
            if l is None:
                return '<%s>' % n.get('n')
            if l not in st.w:
                return '<%s%s@>' % l
            y = dict(st.sym).get(l)
            return '<%s%s@>' % y[1] if y and y[0] == 'same' else '<%s%s>' % l if len(l) == 2 else None
        if k == 'field':
            b = self.text(n['b'], st)
            return b and '%s.%s' % (b, n['n'])
        if k == 'this':
            return 'this'
        if k in ('int', 'chr', 'bool', 'enum'):
            return '#%s' % int(n.get('v')) if n.get('v') is not None else None
        if k == 'bin' and n['op'] not in ASSIGN or k == 'un' and not ('++' in n['op'] or '--' in n['op']):
            p = [self.text(c, st) for c in n['c']]
            return None if None in p else '%s(%s)' % (n['op'], ','.join(p))
        if k == 'call' and (n.get('mc') or looking(n) and not n.get('a') or n.get('op') in ('==', '!=', '<', '>', '*', '->') or n.get('n') in CTYPE):
            p = [self.text(c, st) for c in ([n['obj']] if n.get('obj') is not None else []) + list(n.get('a') or [])]
            return None if None in p else '%s(%s)' % (n.get('n'), ','.join(p))
        if k == 'ctor' and len(n.get('a') or []) == 1:
            return self.text(n['a'][0], st)
        return None

    def assigned(self, st, l, n, after):
        """What holds of l once it has been given n's value."""
        a = self.text(n, st)
        if a is None or l[0] not in 'vf' or '<%s%s>' % l in a or len(after.facts) >= 16:
            return after
        y = dict(after.sym).get(l)
        if y and y[0] == 'same':
            return after
        f = ('eq',) + tuple(sorted([a, '<%s%s>' % l])) + (True, self.reads(n, None) | {l})
        return after._replace(facts=after.facts | {f}) if consistent(after.facts | {f}) else after

    def judge(self, f):
        self.fn = f
        self.done = {}
        self.depth = 0
        self.eaten = set()
        self.refs, self.taken = set(), set()
        for p in f.params:
            if p['ty'].get('ref'):
                self.refs.add(p['id'])
        for n in f.nodes():
            if n.get('k') == 'decl':
                for v in n['c']:
                    if ty(v).get('ref'):
                        self.refs.add(v['id'])
                    if leads(v):
                        self.take(v.get('init'), ty(v).get('ref'))
            if n.get('k') in ('bin', 'call') and n.get('op') == '=':
                c = n['c'] if n['k'] == 'bin' else ([n['obj']] if n.get('obj') is not None else []) + list(n.get('a') or [])
                if len(c) == 2 and leads(strip(c[0])):
                    self.take(c[1], False)
            if n.get('k') == 'ctor' and not (n.get('q') or '').startswith('std::'):
                for x, p in zip(n.get('a') or [], n.get('pt') or []):
                    if p.get('ref') or p.get('ptr'):
                        self.take(x, not p.get('const') and 'const' not in (p.get('s') or ''))
            if n.get('k') == 'call' and self.ownfn(n) and n.get('fn') in self.fx.impure:
                for x, p in zip(n.get('a') or [], n.get('pt') or []):
                    if p.get('ref') and not p.get('const') or p.get('ptr'):
                        self.take(x)
            if n.get('k') == 'ret' and n.get('e') and f.d.get('ret', {}).get('ref'):
                self.take(n['e'])
            if n.get('k') == 'un' and n['op'] == '&' and strip(n['c'][0]).get('k') == 'var':
                self.taken.add(strip(n['c'][0]).get('id'))
            if n.get('k') == 'lambda':
                for x in walk(n):
                    if x.get('k') == 'var' and x.get('id') is not None:
                        self.taken.add(x['id'])
        self.run(f, {NEW})
        return self.done


def consistent(facts):
    up = {}

    def top(x):
        while x in up:
            x = up[x]
        return x
    for f in facts:
        if f[0] == 'eq' and f[3]:
            a, b = top(f[1]), top(f[2])
            if a != b:
                if a[0] == '#':
                    a, b = b, a
                    if a[0] == '#':
                        return False
                up[a] = b
    for f in facts:
        if f[0] == 'eq' and not f[3] and top(f[1]) == top(f[2]):
            return False
        if f[0] == 'is' and any(g[0] == 'is' and g[1] == f[1] and g[3] != f[3] for g in facts):
            return False
    return True


def leads(v):
    t = s(v)
    return bool(ty(v).get('ref') or ty(v).get('ptr') or 'iterator' in t or 'inserter' in t or t.endswith('*'))


def reading(n):
    for x in walk(n):
        t = s(x)
        if instream(t) or 'istreambuf_iterator' in t or 'streambuf' in t:
            return True
    return False


def one(g):
    prog = load(g)
    fx = Effects(prog)
    out = []
    for f in prog.real_fns():
        if f.body is None or f.d.get('dep') or not f.file.startswith(REPO) or not belongs(f.file, g):
            continue
        loops = [n for n in f.nodes() if n.get('k') in ('while', 'do', 'for')]
        if not loops:
            continue
        for eof in (False, 'steady', 'tail'):
            ls = [n for n in loops if not eof or reading(n)]
            if not ls:
                continue
            T = Trips(prog, fx, eof)
            try:
                done = T.judge(f)
            except Unsupported as e:
                done = {}
                T.lost = str(e)
            if eof == 'tail':
                for n in ls:
                    for x in walk(n):
                        if id(x) in T.eaten:
                            out.append((f.at(x), f.q, eof, False, ''))
                    if isinstance(done.get(id(n)), str) or done.get(id(n)) is None:
                        out.append((f.at(n), f.q, eof, None, done.get(id(n)) or 'not reached'))
                    else:
                        out.append((f.at(n), f.q, eof, True, ''))
                continue
            for n in ls:
                v = done.get(id(n))
                what = (f.at(n), f.q, eof)
                if v is True:
                    out.append(what + (True, ''))
                elif v is None or isinstance(v, str):
                    out.append(what + (None, v or 'not reached'))
                else:
                    out.append(what + (False, repr(v.r)[:200]))
    return g, out


CLAUSE = {False: 'progress', 'steady': 'ended stream', 'tail': 'end not data'}


def check(prop):
    ck = Check(prop, 'for each loop, every path once round it from its head back to its head, with what the path reads to choose its way (as it stood at the head) and what it writes: a path that writes nothing of what chose it is taken '
                     'again for ever; loops that read a stream are taken round once more with the stream at its end',
               ['a function that may throw or exit may end a loop', 'range-for loops end'])
    groups = ['lib', 'utils'] + list(apps())
    with Pool(8) as p:
        res = p.map(one, groups, chunksize=1)
    seen = {}
    for g, out in res:
        ck.count('programs')
        for at, q, eof, ok, msg in out:
            k = (at, eof)
            if k in seen and (seen[k][1] is False or ok is not False):
                continue
            seen[k] = (q, ok, msg)
    for (at, eof), (q, ok, msg) in sorted(seen.items(), key=repr):
        c = CLAUSE[eof]
        ck.count({False: 'loops', 'steady': 'loops at the end of a stream', 'tail': 'loops that meet the end of a stream'}[eof])
        ck.obligation(c, at, ok, key='%s|%s' % (at.split(':')[0], q), msg='%s: %s' % (q, {
            False: 'a trip round the loop changes nothing that decides whether it goes round again', 'steady': 'the loop goes round for ever once the stream has ended',
            'tail': 'the end of the stream is taken for a character'}[eof] if ok is False else msg))
    ck.floor('progress', 100)
    return ck.finish()

"""C26: a file that cannot be opened and an error that is reported end in
failure, never in success."""
import re
from collections import namedtuple
from multiprocessing import Pool
from .. import ir
from ..ir import walk, children, apps, load, belongs, REPO
from ..flow import Flow, Unsupported
from ..expr import ASSIGN
from ..report import Check

FST = re.compile(r'^(const )?std::basic_([io]?)fstream<')
STR = re.compile(r'^(const )?std::basic_([io]?|io)(f|string)?(stream|stringstream)<|^(const )?std::basic_ios<|^(const )?std::basic_[io]?stringstream<')
TXT = re.compile(r'^(const )?(std::)?(__cxx11::)?basic_string<|^(const )?std::string\b')
NULLS = {'fopen', 'popen', 'opendir', 'freopen', 'fdopen', 'tmpfile'}
SYS = {'open', 'pipe', 'fork', 'vfork', 'socket', 'dup'}
STATUS = {'pipe', 'socketpair', 'mkfifo', 'chdir', 'mkdir', 'rename'}
TESTS = {'good': True, 'is_open': True, 'fail': False}
NEUTRAL = {'close', 'clear', 'imbue', 'rdbuf', 'get', 'release', 'reset', 'swap', 'tie', 'setf', 'unsetf', 'precision', 'width', 'fill', 'flags'}
NEUTRAL_STREAM = NEUTRAL - {'get'}


def strip(n):
    while n is not None:
        k = n.get('k')
        if k in ('cast', 'icast') and len(n.get('c') or []) == 1:
            n = n['c'][0]
        elif k == 'ctor' and n.get('ck') in ('copy', 'move') and len(n.get('a') or []) == 1:
            n = n['a'][0]
        elif k == 'init' and len(n.get('a') or []) == 1:
            n = n['a'][0]
        else:
            return n
    return n


def cls(ty):
    if not ty:
        return ''
    return ty.get('cls') or ''


def streamy(ty):
    return bool(ty) and not ty.get('ptr') and bool(STR.match(cls(ty)))


def texty(ty):
    if not ty:
        return False
    if ty.get('ptr'):
        return bool((ty.get('pt') or {}).get('ch'))
    return bool(TXT.match(cls(ty)) or TXT.match(ty.get('s') or ''))


def handle(ty):
    return bool(ty) and not ty.get('ptr') and re.match(r'^(const )?(ringing::)?(scoped|shared|cloning)_pointer<|^(const )?std::(unique_ptr|shared_ptr|auto_ptr)<', cls(ty))


class St(namedtuple('St', 'env objs vals rep')):
    __slots__ = ()


NEW = St(frozenset(), frozenset(), frozenset(), None)


def put(fs, k, v):
    return frozenset([(a, b) for a, b in fs if a != k] + ([] if v is None else [(k, v)]))


class World:
    """What is known of the functions and classes of a program."""

    def __init__(self, prog):
        self.prog = prog
        self.openers = {}        # function -> kind of what it returns
        self.failing = set()
        self.sum = {}
        self.testers = set()
        self.cls_tester = {}
        self.find_testers()

    def own(self, f):
        return f is not None and f.body is not None and f.file.startswith(REPO)

    def find_testers(self):
        P = self.prog
        fns = [f for f in P.real_fns() if self.own(f)]
        has = set()
        for f in fns:
            for n in f.nodes():
                if n.get('k') == 'call' and stream_test(n) is not None:
                    has.add(f.usr)
                    break
        fields = set()
        for f in fns:
            if f.usr in has and f.cls:
                for n in f.nodes():
                    if n.get('k') == 'bin' and n['op'] in ASSIGN:
                        l = strip(n['c'][0])
                        if l.get('k') == 'field' and ((l.get('ty') or {}).get('b') or (l.get('ty') or {}).get('int')) and strip(l['b']).get('k') == 'this':
                            fields.add((f.cls, l['n']))
                for i in f.inits or []:
                    if i.get('field') and i.get('e') is not None and any(stream_test(x) is not None for x in walk(i['e']) if x.get('k') == 'call'):
                        fields.add((f.cls, i['field'].split('::')[-1]))
        cand = [f for f in fns if f.cls and not f.params and ((f.d.get('ret') or {}).get('b'))]
        ch = True
        while ch:
            ch = False
            for f in cand:
                if f.usr in self.testers:
                    continue
                for n in f.nodes():
                    if n.get('k') == 'call' and (stream_test(n) is not None or n.get('fn') in self.testers or any(t.usr in self.testers for t in P.targets(n))) \
                            or n.get('k') == 'field' and (f.cls, n['n']) in fields and strip(n['b']).get('k') == 'this':
                        self.testers.add(f.usr); ch = True
                        break

    def has_tester(self, c):
        """Whether somebody can ask an object of class c."""
        if c not in self.cls_tester:
            fam = {c} | set(self.prog.bases(c)) | set(self.prog.derived(c))
            self.cls_tester[c] = any(f.cls in fam and f.usr in self.testers for f in self.prog.real_fns())
        return self.cls_tester[c]

    def asks(self, c, me):
        fam = {c} | set(self.prog.bases(c))
        fs = [f for f in self.prog.real_fns() if f.cls in fam and f.usr != me]
        says = [f for f in fs if f.cls == c and f.n == 'good' and not f.params]
        if says:
            return any(f.usr in self.testers for f in says)
        return any(f.usr in self.testers or self.own(f) and any(n.get('k') == 'call' and stream_test(n) is not None for n in f.nodes()) for f in fs)

    def is_tester(self, n):
        if n.get('fn') in self.testers:
            return True
        return any(t.usr in self.testers for t in self.prog.targets(n))


def stream_test(n):
    """The truth value of test n that says the stream is good."""
    o = n.get('obj')
    nm = n.get('n')
    if o is not None and (streamy(o.get('ty')) or STR.match(cls(o.get('ty')))) or o is not None and FST.match(cls(strip(o).get('ty'))):
        if nm in TESTS and not n.get('a'):
            return TESTS[nm]
        if nm in ('operator bool', 'operator void *') or nm and nm.startswith('operator ') and nm.split()[1] in ('bool', 'void'):
            return True
        if nm == 'operator!' or n.get('op') == '!':
            return False
    return None


class Watch(Flow):
    MAX_STATES = 800

    def __init__(self, prog, w, fn, param=None):
        super().__init__(prog)
        self.w, self.fn, self.param = w, fn, param
        self.bad = {}             # (node id, kind) -> (node, clause, message)
        self.opens = {}           # object -> (where, what, kind)
        self.returned = None
        self.fails = False
        self.used = False
        self.kept = False
        self.main = fn.n == 'main' and not fn.cls
        self.ids = {}
        self.look()

    # -- what an expression denotes ------------------------------------------------
    def oid(self, n):
        return ('o', self.ids.setdefault(id(n), len(self.ids)))

    def place(self, n):
        n = strip(n)
        if n is None:
            return None
        if n.get('k') == 'var' and n.get('dk') in ('local', 'param'):
            return ('v', n['id'])
        if n.get('k') == 'var':
            return ('g', n.get('q') or n.get('n'))
        if n.get('k') == 'field' and strip(n['b']).get('k') == 'this':
            return ('f', n['n'])
        return None

    def kind(self, n):
        """Whether n opens something: its kind and a name for it."""
        k = n.get('k')
        if k == 'ctor' and n.get('ck') not in ('copy', 'move', 'default'):
            pt = n.get('pt') or []
            if FST.match(n.get('q') or '') and pt and texty(pt[0]):
                return 'stream', 'the file'
            c = n.get('q')
            if c and not n.get('q', '').startswith('std::') and any(texty(p) for p in pt) and self.w.has_tester(c):
                g = self.prog.fn(n.get('fn'))
                if g is None or g.file.startswith(REPO):
                    if not (c.endswith('string_node')):
                        return 'lib', 'the ' + c.split('::')[-1]
        if k == 'call':
            if n.get('n') in NULLS and n.get('obj') is None and not self.w.own(self.prog.fn(n.get('fn'))):
                return 'null', 'the result of ' + n['n']
            if n.get('n') in SYS and n.get('obj') is None and (n.get('ty') or {}).get('int') and not self.w.own(self.prog.fn(n.get('fn'))) and n['n'] != 'pipe':
                return 'neg', 'the result of ' + n['n']
            x = self.w.openers.get(n.get('fn'))
            if x:
                return x, 'the result of ' + (n.get('n') or '?')
        return None

    def obj(self, n, st):
        """The opened object an expression denotes, through handles and pointers."""
        n = strip(n)
        if n is None:
            return None
        k = n.get('k')
        if k in ('var', 'field'):
            p = self.place(n)
            return dict(st.env).get(p) if p else None
        if k == 'un' and n['op'] in ('*', '&'):
            return self.obj(n['c'][0], st)
        if k == 'bin' and n['op'] == '=':
            return self.obj(n['c'][0], st)
        if k == 'new':
            return self.obj(n.get('init'), st)
        if k == 'ctor':
            if self.kind(n):
                return self.oid(n)
            if (handle(n.get('ty'))) and len(n.get('a') or []) >= 1:
                return self.obj(n['a'][0], st)
            return None
        if k == 'call':
            if self.kind(n):
                return self.oid(n)
            o = n.get('obj')
            if o is not None and (n.get('op') in ('*', '->') or n.get('n') in ('get', 'release') and not n.get('a') and not streamy(strip(o).get('ty'))):
                return self.obj(o, st)
            if o is not None and n.get('n') in ('operator bool', 'operator!'):
                return None
            if n.get('op') == '=' and o is not None:
                return self.obj(o, st)
            return None
        return None

    def iter(self, n, st):
        """The object n is a beginning or end of."""
        n = strip(n)
        if n is None:
            return None
        if n.get('k') == 'call' and n.get('n') in ('begin', 'end') and n.get('obj') is not None and not n.get('a'):
            return self.obj(n['obj'], st)
        if n.get('k') == 'var':
            p = self.place(n)
            return dict(st.env).get(('i', p)) if p else None
        return None

    def status(self, o, st):
        return dict(st.objs).get(o)

    def setst(self, st, o, v):
        return st._replace(objs=put(st.objs, o, v))

    def bind(self, st, p, o):
        if p is None:
            return st
        st = st._replace(env=put(st.env, p, o))
        live = {b for a, b in st.env}
        return st._replace(objs=frozenset((a, b) for a, b in st.objs if a in live or a == o or a[0] == 'p'))

    # -- constants -------------------------------------------------------------------
    def value(self, n, st):
        n = strip(n)
        if n is None:
            return None
        k = n.get('k')
        if k in ('int', 'bool', 'enum', 'chr'):
            return int(n['v']) if n.get('v') is not None else None
        if k == 'var' and n.get('dk') in ('local', 'param'):
            return dict(st.vals).get(n['id'])
        if k == 'un' and n['op'] == '!':
            v = self.value(n['c'][0], st)
            if isinstance(v, int):
                return int(not v)
            if isinstance(v, tuple):
                return ('t', v[1], not v[2])
        t = self.test(n, st)
        if t:
            return ('t', t[0], t[1])
        return None

    # -- tests -----------------------------------------------------------------------
    def test(self, n, st):
        """(object, truth that says it is open) for a test of one."""
        n = strip(n)
        if n is None:
            return None
        k = n.get('k')
        if k == 'un' and n['op'] == '!':
            t = self.test(n['c'][0], st)
            return (t[0], not t[1]) if t else None
        if k == 'call':
            good = stream_test(n)
            if good is not None:
                o = self.obj(n['obj'], st)
                if o and self.opens.get(o, (0, 0, 0))[2] == 'null':
                    o = None
                return (o, good) if o else None
            o = n.get('obj')
            if o is not None and handle(strip(o).get('ty')) and (n.get('op') == '!' or (n.get('n') or '').startswith('operator ')) and n.get('op') not in ('*', '->', '='):
                x = self.obj(o, st)
                if x and self.opens[x][2] == 'null':
                    return (x, n.get('n') != 'operator!')
                return None
            if o is not None and not n.get('a') and (n.get('ty') or {}).get('b'):
                x = self.obj(o, st)
                if x and self.opens[x][2] == 'lib':
                    if n.get('n') == 'empty':
                        return (x, False)
                    if self.w.is_tester(n):
                        return (x, True)
            if n.get('op') in ('==', '!='):
                ops = ([o] if o is not None else []) + list(n.get('a') or [])
                if len(ops) == 2:
                    xs = [self.iter(e, st) for e in ops]
                    if xs[0] and xs[0] == xs[1]:
                        return (xs[0], n['op'] == '!=')
                    for a, b in ((0, 1), (1, 0)):
                        x = self.obj(ops[a], st)
                        if x and self.opens[x][2] == 'null' and is_null(ops[b]):
                            return (x, n['op'] == '!=')
        if k == 'bin' and n['op'] in ('==', '!=', '<', '>', '<=', '>='):
            for a, b, fl in ((0, 1, False), (1, 0, True)):
                x = self.obj(n['c'][a], st)
                if not x:
                    continue
                kd = self.opens[x][2]
                if kd == 'null' and n['op'] in ('==', '!=') and is_null(n['c'][b]):
                    return (x, n['op'] == '!=')
                if kd == 'neg':
                    op = n['op']
                    if fl:
                        op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
                    v = const(n['c'][b])
                    if v == -1:
                        return (x, op in ('!=', '>', '>='))
                    if v == 0:
                        if op in ('<', '>='):
                            return (x, op == '>=')
                        if op in ('==', '>'):
                            return (x, None)
        if k in ('var', 'call', 'field'):
            x = self.obj(n, st)
            if x and self.opens[x][2] == 'null' and not streamy(n.get('ty')):
                return (x, True)
        return None

    def assume(self, n, truth, st):
        e = strip(n)
        v = self.value(e, st)
        if isinstance(v, int):
            return (st,) if bool(v) == truth else ()
        t = (v[1], v[2]) if isinstance(v, tuple) else self.test(e, st)
        if t and t[0] and self.status(t[0], st) is not None:
            if t[1] is None:
                return (self.setst(st, t[0], 'ok') if truth else st,)
            s = self.status(t[0], st)
            if truth == t[1]:
                return (self.setst(st, t[0], 'ok'),) if s not in ('bad', 'told') or True else ()
            if s != 'ok':
                return (self.setst(st, t[0], 'bad'),)
            return (st,)
        if e is not None and e.get('k') == 'call' and not truth and self.failing(e):
            return (st._replace(rep='err'),)
        if e is not None and e.get('k') == 'var' and e.get('dk') == 'local' and ((e.get('ty') or {}).get('b')) and v is None:
            return (st._replace(vals=put(st.vals, e['id'], int(truth))),)
        return (st,)

    def failing(self, n):
        return n.get('fn') in self.w.failing or any(t.usr in self.w.failing for t in self.prog.targets(n))

    # -- uses ------------------------------------------------------------------------
    def use(self, n, o, st, how='used'):
        s = self.status(o, st)
        if s in ('new', 'bad', 'told'):
            if o[0] == 'p':
                self.used = True
            else:
                w, what, kd = self.opens[o]
                self.bad.setdefault((id(n), 'opened'), (n, 'opened', '%s opened at %s is %s %s' % (
                    what, w, how, 'without asking whether it was opened' if s == 'new' else 'although it could not be opened')))
        return st

    def opened(self, n, st):
        kd = self.kind(n)
        if not kd:
            return st
        o = self.oid(n)
        self.opens[o] = (self.fn.at(n), kd[1], kd[0])
        return self.setst(st, o, 'new')

    def is_cerr(self, n):
        n = strip(n)
        while n is not None and n.get('k') == 'call' and n.get('op') == '<<':
            a = ([n['obj']] if n.get('obj') is not None else []) + list(n.get('a') or [])
            n = strip(a[0]) if a else None
        return n is not None and n.get('k') == 'var' and n.get('q') in ('std::cerr', 'std::clog')

    def is_stream_expr(self, n):
        return n.get('k') == 'call' and n.get('op') == '<<' and streamy(n.get('ty'))

    def leaf(self, n, st):
        k = n.get('k')
        st = self.opened(n, st) if k in ('ctor', 'call') else st
        if k == 'bin' and n['op'] == '=':
            l = strip(n['c'][0])
            p = self.place(l)
            if p:
                o = self.obj(n['c'][1], st)
                st = self.bind(st, p, o)
                if p[0] == 'v':
                    st = st._replace(vals=put(st.vals, p[1], self.value(n['c'][1], st)))
            return (st,)
        if k == 'bin' and n['op'] in ASSIGN or k == 'un' and ('++' in n['op'] or '--' in n['op']):
            p = self.place(n['c'][0])
            if p and p[0] == 'v':
                st = st._replace(vals=put(st.vals, p[1], None))
            return (st,)
        if k == 'un' and n['op'] == '*':
            o = self.obj(n['c'][0], st)
            if o and self.opens.get(o, (0, 0, 0))[2] == 'null':
                st = self.use(n, o, st)
            return (st,)
        if k == 'un' and n['op'] == '&':
            p = self.place(n['c'][0])
            if p and p[0] == 'v':
                st = st._replace(vals=put(st.vals, p[1], None))
            return (st,)
        if k == 'field' and n.get('arrow'):
            o = self.obj(n['b'], st)
            if o and self.opens.get(o, (0, 0, 0))[2] == 'null':
                st = self.use(n, o, st)
            return (st,)
        if k not in ('call', 'ctor'):
            return (st,)
        return (self.called(n, st),)

    def called(self, n, st):
        k = n['k']
        a = list(n.get('a') or [])
        ob = n.get('obj')
        nm = n.get('n')
        t = self.test(n, st) if k == 'call' else None
        if t and t[0]:
            s = self.status(t[0], st)
            if s == 'new' and not (self.kind(n)):
                st = self.setst(st, t[0], 'seen')
            return st
        if k == 'call' and self.is_cerr(n):
            st = st._replace(rep='cerr' if st.rep in (None, 'cerr') else 'caught')
            st = st._replace(objs=frozenset((x, 'told' if y == 'bad' else y) for x, y in st.objs))
        elif k == 'call' and nm == 'error' and (n.get('rec') or '').endswith('arg_parser'):
            st = st._replace(rep='err' if id(n) in self.handled else 'cerr' if not self.warning(n) else None,
                             objs=frozenset((x, 'told' if y == 'bad' else y) for x, y in st.objs))
        elif k == 'call' and st.rep in ('cerr', 'caught') and (self.is_stream_expr(n) or self.w.own(self.prog.fn(n.get('fn'))) and not self.quietfn(n)):
            st = st._replace(rep=None)
        if k == 'call' and (n.get('op') in ASSIGN or nm in ('push_back', 'append', 'assign', 'insert')):
            l = strip(ob if ob is not None else a[0]) if ob is not None or a else None
            if l is not None and l.get('k') == 'var' and l.get('dk') == 'local' and texty(l.get('ty')) and self.after_test(st):
                st = st._replace(objs=frozenset((x, 'noted' if y == 'bad' else y) for x, y in st.objs))
        # the operations on handles and streams
        if ob is not None:
            p = self.place(ob)
            o = self.obj(ob, st)
            if nm == 'open' and FST.match(cls(strip(ob).get('ty'))):
                o = ('o', self.ids.setdefault(('open', id(n)), len(self.ids)))
                self.opens[o] = (self.fn.at(n), 'the file', 'stream')
                st = self.bind(self.setst(st, o, 'new'), p, o)
                return self.setst(st, o, 'new')
            if handle(strip(ob).get('ty')) and (nm == 'reset' or n.get('op') == '='):
                return self.bind(st, p, self.obj(a[0], st) if a else None)
            if o:
                kd = self.opens.get(o, (0, 0, 'stream'))[2]
                if nm == 'exceptions' and a:
                    return self.setst(st, o, 'ok')
                if kd == 'null':
                    if n.get('op') in ('*', '->'):
                        return self.use(n, o, st)
                    if not handle(strip(ob).get('ty')):
                        st = self.use(n, o, st)
                elif streamy(strip(ob).get('ty')) and nm not in NEUTRAL_STREAM and not (nm or '').startswith('operator ') and n.get('op') not in ('->', '*'):
                    st = self.use(n, o, st, 'read or written')
                elif kd == 'lib' and not handle(strip(ob).get('ty')) and nm not in NEUTRAL and not (self.prog.fn(n.get('fn')) is not None and (n.get('ty') or {}).get('b') and self.w.is_tester(n)):
                    if nm in ('begin', 'end'):
                        if not self.compared(n):
                            st = self.use(n, o, st, 'read')
                    elif n.get('op') not in ('->', '*', '='):
                        st = self.use(n, o, st)
        for i, x in enumerate(a):
            o = self.obj(x, st)
            if not o or o not in self.opens and o[0] != 'p':
                continue
            if k == 'ctor' and (handle(n.get('ty')) or n.get('ck') in ('copy', 'move')):
                continue
            if self.status(o, st) not in ('new', 'bad', 'told'):
                continue
            if self.kind(n) and self.oid(n) == o:
                continue
            kd = self.opens.get(o, (0, 0, 'stream'))[2]
            if ob is not None and nm == 'reset' and handle(strip(ob).get('ty')):
                continue
            if kd in ('neg',):
                if nm not in ('close',):
                    st = self.use(n, o, st)
                continue
            if k == 'ctor' and self.baseinit is n:
                self.kept = True
                continue
            r = self.takes(n, i, kd)
            if r == 'use':
                st = self.use(n, o, st, 'handed to %s' % (nm or (n.get('q') or '?').split('<')[0].split('::')[-1]))
            elif r == 'examines':
                st = self.setst(st, o, 'ok')
        # variables handed over by reference lose their value
        pt = n.get('pt') or []
        for x, p in zip(a, pt):
            if p.get('ref') and not p.get('const'):
                q = self.place(x)
                if q and q[0] == 'v' and dict(st.vals).get(q[1]) is not None:
                    st = st._replace(vals=put(st.vals, q[1], None))
        return st

    baseinit = None

    def after_test(self, st):
        return any(y == 'bad' for x, y in st.objs)

    def warning(self, n):
        return any(x.get('k') == 'str' and 'arning' in (x.get('v') or '') for x in walk(n))

    def look(self):
        """Reports made in handlers, and ends that follow a report directly."""
        self.handled, self.after = set(), set()
        for n in self.fn.nodes():
            if n.get('k') == 'try':
                for h in n.get('h') or []:
                    self.handled |= {id(x) for x in walk(h.get('b'))}
            if n.get('k') == 'block':
                c = [x for x in n.get('c') or [] if x is not None]
                for a, b in zip(c, c[1:]):
                    if a.get('k') == 'call' and (self.is_cerr(a) or a.get('n') == 'error' and (a.get('rec') or '').endswith('arg_parser') and not self.warning(a)):
                        self.after.add(id(b))

    def wrong(self, n, st):
        return st.rep in ('err', 'caught') or st.rep == 'cerr' and id(n) in self.after

    def quietfn(self, n):
        return n.get('mc') or n.get('op') or n.get('n') in ('what', 'clear_status')

    def compared(self, n):
        """Whether a begin or end is compared there and then."""
        if getattr(self, 'cmp', None) is None:
            self.cmp = set()
            for x in self.fn.nodes():
                if x.get('op') in ('==', '!=') and x.get('k') in ('call', 'bin'):
                    ops = ([x['obj']] if x.get('obj') is not None else []) + list(x.get('a') or []) + list(x.get('c') or [])
                    es = [strip(e) for e in ops]
                    if len(es) == 2 and all(e is not None and e.get('k') == 'call' and e.get('n') in ('begin', 'end') for e in es):
                        self.cmp |= {id(e) for e in es}
                if x.get('k') == 'decl':
                    self.cmp |= {id(strip(v['init'])) for v in x['c'] if v.get('init') is not None}
        return id(n) in self.cmp

    def takes(self, n, i, kd):
        """What a call does with its i-th argument: nothing, examine it, use it."""
        ts = self.prog.targets(n) if n['k'] == 'call' else []
        g = self.prog.fn(n.get('fn'))
        if g is not None and g not in ts:
            ts = list(ts) + [g]
        ts = [t for t in ts if self.w.own(t)]
        if not ts:
            return 'use'
        out = set()
        for t in ts:
            if n.get('op') and n.get('obj') is None or not n.get('op') or n.get('obj') is not None:
                out.add(self.summary(t, i, kd))
        if 'use' in out:
            return 'use'
        return 'examines' if out == {'examines'} else 'none'

    def summary(self, t, i, kind):
        key = (t.usr, i, kind)
        if key in self.w.sum:
            return self.w.sum[key]
        self.w.sum[key] = 'use'
        if i >= len(t.params):
            return 'use'
        p = t.params[i]
        W = Watch(self.prog, self.w, t, p)
        o = ('p', p['id'])
        W.opens[o] = ('', '', kind)
        st = NEW._replace(env=frozenset([(('v', p['id']), o)]), objs=frozenset([(o, 'new')]))
        try:
            X = W.run(t, {st})
        except Unsupported:
            return 'use'
        r = 'use' if W.used or W.kept else None
        if r is None:
            ss = {W.status(o, s) for s in X.ret}
            if any(b == o and a[0] == 'f' for s in X.ret for a, b in s.env):
                r = 'use'
            elif 'bad' in ss and not (t.d.get('ret') or {}).get('b'):
                r = 'use'
            elif ss <= {'ok', 'seen'} and ss or not X.ret:
                r = 'examines'
            else:
                r = 'none'
        self.w.sum[key] = r
        return r

    # -- declarations and exits --------------------------------------------------------
    def declare(self, v, st):
        i = v.get('init')
        if i is not None:
            o = self.obj(i, st)
            it = self.iter(i, st)
            st = self.bind(st, ('v', v['id']), o)
            if it or dict(st.env).get(('i', ('v', v['id']))):
                st = self.bind(st, ('i', ('v', v['id'])), it)
            if (v['ty'].get('b') or v['ty'].get('int')) and not v.get('static'):
                st = st._replace(vals=put(st.vals, v['id'], self.value(i, st)))
        else:
            st = self.bind(st, ('v', v['id']), None)._replace(vals=put(st.vals, v['id'], None))
        return (st,)

    def init(self, fn, i, S):
        e = i.get('e')
        self.baseinit = strip(e) if not i.get('field') and e is not None else None
        if e is not None:
            S = self.ev(e, S)
        self.baseinit = None
        if i.get('field'):
            S = self.many(lambda s: (self.bind(s, ('f', i['field'].split('::')[-1]), self.obj(e, s)) if e is not None else s,), S)
        return S

    def loop_var(self, n, st):
        return (st,)

    def on_catch(self, h, st):
        return (st._replace(rep='caught') if self.main else st,)

    def noreturn(self, n, st):
        nm = n.get('n')
        if nm in ('exit', '_exit', '_Exit', 'quick_exit') and n.get('a'):
            v = self.value(n['a'][0], st)
            if v == 0 and (self.wrong(n, st) or id(n) in self.handled):
                self.bad.setdefault((id(n), 'ending'), (n, 'ending', 'the program ends as if it had succeeded after reporting an error'))
            if v == 0 and any(y in ('bad', 'told') for x, y in st.objs):
                self.bad.setdefault((id(n), 'ending'), (n, 'ending', 'the program ends as if it had succeeded after failing to open a file'))

    def on_throw(self, n, typ, st):
        if typ and n.get('c') and 'std::exception' not in self.prog.bases(typ) and self.prog.rec_q.get(typ) is not None and not typ.startswith('std::'):
            for o, y in st.objs:
                if y == 'bad' and o[0] == 'o':
                    w, what, kd = self.opens[o]
                    self.bad.setdefault((id(n), 'reported'), (n, 'reported', '%s opened at %s cannot be opened, which ends in %s and no message' % (what, w, typ)))
        return (st,)

    def may_throw(self, n, st):
        if self.main or n.get('k') == 'call' and self.w.own(self.prog.fn(n.get('fn'))):
            return (None,)
        return ()

    def on_return(self, n, st):
        e = n.get('e')
        v = self.value(e, st) if e is not None else None
        ret = self.fn.d.get('ret') or {}
        o = self.obj(e, st) if e is not None else None
        if isinstance(v, int):
            if self.main and v == 0 and self.wrong(n, st):
                self.bad.setdefault((id(n), 'ending'), (n, 'ending', 'the program ends as if it had succeeded after reporting an error'))
            if ret.get('b') and v == 1 and self.wrong(n, st) and not self.main:
                self.bad.setdefault((id(n), 'ending'), (n, 'ending', 'success is returned after an error has been reported'))
            if ret.get('b') and v == 0 and st.rep and not self.main:
                self.fails = True
        c = strip(e) if e is not None else None
        if ret.get('b') and c is not None and c.get('k') == 'call' and self.failing(c) and not self.main:
            self.fails = True
        told = set()
        for x, y in st.objs:
            if x == o:
                kd = self.opens.get(x, (0, 0, 0))[2]
                if y in ('new', 'bad', 'told') and x[0] == 'o':
                    self.returned = kd
                told.add(x)
        if o is None and e is not None and (ret.get('ptr') or handle(ret)) and (is_null(e) or self.nullobj(e, st)):
            if any(y == 'bad' for x, y in st.objs) or self.dropped(st):
                self.returned = self.returned or 'null'
            told |= {x for x, y in st.objs}
        if ret.get('b') and v == 0:
            told |= {x for x, y in st.objs}
        if self.main and isinstance(v, int) and v != 0:
            told |= {x for x, y in st.objs}
        if isinstance(v, tuple):
            told.add(v[1])
        if self.main and not isinstance(v, int) and e is not None:
            told |= {x for x, y in st.objs}
        return (st._replace(objs=frozenset((x, y) for x, y in st.objs if x not in told or x[0] == 'p'), rep=None),)

    def nullobj(self, e, st):
        e = strip(e)
        return e is not None and e.get('k') == 'var' and handle(e.get('ty')) and self.obj(e, st) is None

    def dropped(self, st):
        return bool(self.opens) and all(x[0] == 'o' for x in self.opens)


def const(n):
    n = strip(n)
    if n is None:
        return None
    if n.get('k') == 'int':
        return n['v']
    if n.get('k') == 'un' and n['op'] == '-':
        v = const(n['c'][0])
        return -v if v is not None else None
    return None


def is_null(n):
    n = strip(n)
    return n is not None and (n.get('k') in ('null', 'nullptr') or n.get('k') == 'int' and n.get('v') == 0 or n.get('k') == 'ctor' and bool(handle(n.get('ty'))) and not n.get('a'))


def relevant(w, f):
    for n in f.nodes():
        k = n.get('k')
        if k in ('call', 'ctor'):
            if FST.match(n.get('q') or '') or n.get('n') in NULLS or n.get('n') in SYS or n.get('n') in ('exit', 'error'):
                return True
            if n.get('fn') in w.openers or n.get('fn') in w.failing:
                return True
            if k == 'ctor' and any(texty(p) for p in n.get('pt') or []) and w.has_tester(n.get('q')):
                return True
            if k == 'call' and FST.match(n.get('rec') or ''):
                return True
        if k == 'var' and n.get('q') == 'std::cerr':
            return True
    return f.n == 'main'


def judge(w, f):
    W = Watch(w.prog, w, f)
    X = W.run(f, {NEW})
    out = []
    for s in X.ret:
        if W.main and s.rep in ('err', 'caught'):
            out.append((f.body, 'ending', 'main ends as if it had succeeded after reporting an error'))
        for o, y in s.objs:
            if o not in W.opens:
                continue
            wh, what, kd = W.opens[o]
            if kd == 'neg' and y == 'new':
                out.append((f.body, 'opened', '%s at %s is never asked whether it failed' % (what, wh)))
            kept = any(b == o and a[0] == 'f' for a, b in s.env)
            if kept and y in ('new', 'bad', 'seen'):
                if not (f.cls and w.asks(f.cls, f.usr)):
                    out.append((f.body, 'opened', '%s opened at %s is kept and nobody can ask whether it was opened' % (what, wh)))
            elif (y == 'bad' or y == 'told' and (f.d.get('ret') or {}).get('void') and not f.d.get('ctor')) and not kept:
                out.append((f.body, 'reported', '%s opened at %s cannot be opened and %s' % (what, wh, 'nothing says so' if y == 'bad' else 'all goes on as if it had been')))
    out += [b for b in W.bad.values()]
    return W, out


def dropped(w, f):
    """Statements that throw away the result of a call that may fail."""
    out = []
    asked = set()            # a loop that reads its input a piece at a time goes on after a bad piece
    for n in f.nodes():
        if n.get('k') in ('while', 'do', 'for') and n.get('cond') is not None and any(streamy(x.get('ty')) for x in walk(n['cond'])):
            asked |= {id(x) for x in walk(n.get('b'))}
    if f.d.get('dtor'):
        return out
    for n in f.nodes():
        k = n.get('k')
        ss = []
        if k == 'block':
            ss = n.get('c') or []
        elif k == 'if':
            ss = [n.get('then'), n.get('else')]
        elif k in ('for', 'while', 'do', 'rfor'):
            ss = [n.get('b')] + ([n.get('inc')] if k == 'for' else [])
        elif k in ('case', 'default'):
            ss = [n.get('s')]
        for x in ss:
            if x is not None and x.get('k') == 'call' and x.get('obj') is None and x.get('n') in STATUS and not w.own(w.prog.fn(x.get('fn'))):
                out.append(x)
            if x is not None and id(x) not in asked and x.get('k') == 'call' and (x.get('ty') or {}).get('b') and (x.get('fn') in w.failing or any(t.usr in w.failing for t in w.prog.targets(x))):
                out.append(x)
    return out


def plainly(f, why):
    """Functions that cannot be followed: the result of opening has to be
    compared somewhere."""
    out = []
    for n in f.nodes():
        v = None
        if n.get('k') == 'bin' and n['op'] == '=':
            v, e = strip(n['c'][0]), strip(n['c'][1])
            v = v.get('id') if v.get('k') == 'var' and v.get('dk') in ('local', 'param') else None
        elif n.get('k') == 'decl':
            for d in n['c']:
                if d.get('init') is not None and strip(d['init']).get('n') in NULLS:
                    v, e = d['id'], strip(d['init'])
        if v is None or e.get('k') != 'call' or e.get('n') not in NULLS:
            continue
        asked = False
        for x in f.nodes():
            c = [x.get('cond')] if x.get('k') in ('if', 'while', 'do', 'for') else [x['c'][0]] if x.get('k') in ('cond',) else []
            for y in c:
                if y is None:
                    continue
                for z in walk(y):
                    if z.get('k') == 'var' and z.get('id') == v and z.get('dk') in ('local', 'param'):
                        if not any(q.get('k') == 'call' and any(strip(b) is z for b in (q.get('a') or [])) for q in walk(y)):
                            asked = True
        out.append((f.at(n), f.q, 'opened', None if asked else False, why if asked else 'the result of %s is never compared with null' % e['n']))
    return out or [(f.at(f.body), f.q, 'opened', None, why)]


def one(g):
    prog = load(g)
    w = World(prog)
    fns = [f for f in prog.real_fns() if f.body is not None and not f.d.get('dep') and f.file.startswith(REPO)]
    for _ in range(4):
        before = (dict(w.openers), set(w.failing))
        w.sum = {}
        for f in fns:
            if not relevant(w, f):
                continue
            try:
                W, _o = judge(w, f)
            except Unsupported:
                continue
            if W.returned and not f.cls or W.returned and (f.d.get('ret') or {}).get('ptr'):
                w.openers[f.usr] = W.returned
            if W.fails:
                w.failing.add(f.usr)
        if before == (w.openers, w.failing):
            break
    out = []
    for f in fns:
        if not belongs(f.file, g):
            continue
        for x in dropped(w, f):
            out.append((f.at(x), f.q, 'status', False, 'the result of %s, which says whether it failed, is thrown away' % x.get('n')))
        for n in f.nodes():
            if n.get('k') == 'call' and (n.get('ty') or {}).get('b') and (n.get('fn') in w.failing or any(t.usr in w.failing for t in prog.targets(n))):
                out.append((f.at(n), f.q, 'status', True, ''))
        if not relevant(w, f):
            continue
        try:
            W, bad = judge(w, f)
        except Unsupported as e:
            out += plainly(f, str(e))
            continue
        seen = set()
        for n, c, msg in bad:
            out.append((f.at(n), f.q, c, False, msg))
        hit = ' '.join(m for n, c, m in bad)
        for o, (wh, what, kd) in W.opens.items():
            if ' %s ' % wh not in hit + ' ':
                out.append((wh, f.q, 'opened', True, ''))
        out.append((f.at(f.body), f.q, 'ending', True, ''))
    return g, out, sorted(w.failing), sorted(w.openers.items()), [f.q for f in prog.real_fns() if f.usr in w.testers]


def check(prop):
    ck = Check(prop, 'each place that opens a file is followed along every path: whether it was opened is asked before anything is read, written or handed on, and where it was not the path ends in an exception, '
                     'an error message or a failing result; results that say an error was reported are not thrown away, and no path that reported an error ends in success',
               ['a library object says truthfully whether it was opened', 'messages on the error stream directly before the end of a program are errors'])
    groups = ['lib', 'utils'] + list(apps())
    with Pool(8) as p:
        res = p.map(one, groups, chunksize=1)
    seen = {}
    for g, out, fl, op, te in res:
        ck.count('programs')
        for at, q, c, ok, msg in out:
            k = (at, c, q)
            if k in seen and (seen[k][0] is False or ok is not False):
                continue
            seen[k] = (ok, msg)
    for (at, c, q), (ok, msg) in sorted(seen.items(), key=repr):
        ck.obligation(c, at, ok, key='%s|%s' % (at.split(':')[0], q), msg='%s: %s' % (q, msg))
    ck.floor('opened', 5)
    ck.floor('ending', 20)
    return ck.finish()

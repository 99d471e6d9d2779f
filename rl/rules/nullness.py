"""C13: what may lead nowhere is asked before it is followed."""
import re
from collections import namedtuple
from multiprocessing import Pool
from .. import ir
from ..ir import walk, children, apps, load, belongs, REPO
from ..flow import Flow, Unsupported
from ..expr import ASSIGN, written_fields
from ..report import Check

# fields that are null in ordinary use: what has to be asked about whatever else does
SPEC = {('arg_parser', 'default_opt'), ('arguments', 'the_methset'), ('console_istream', 'buf'), ('proof_context', 'parent'), ('proof_context', 'output'), ('read_node', 'in'),
        ('read_node', 'in_owner'), ('tokeniser', 'id_first_chars'), ('tokeniser', 'id_other_chars'), ('ringing::litelib::impl', 'f_owner'), ('ringing::libout::iterator', 'pimpl'), ('ringing::printmethod', 'm'),
        ('ringing::prover', 'fi'), ('ringing::prover', 'chain'), ('ringing::touch', 'head'), ('ringing::touch_node::const_iterator', 'bp')}
HANDLE = re.compile(r'^(const )?(ringing::)?(scoped|shared|cloning|cow)_pointer<|^(const )?std::(unique_ptr|shared_ptr|auto_ptr)<')
MAYBE = {'getenv', 'secure_getenv', 'fopen', 'popen', 'opendir', 'freopen', 'fdopen', 'tmpfile', 'strchr', 'strrchr', 'strstr', 'strpbrk',
         'memchr', 'bsearch', 'setlocale', 'readdir', 'dlopen', 'dlsym', 'fgets', 'getpwnam', 'getpwuid', 'strtok', 'realpath', 'getcwd', 'ttyname'}
SAFE = {'free', 'fflush', 'time', 'setlocale', 'realloc', 'waitpid', 'wait', 'strtol', 'strtoul', 'strtod', 'realpath', 'getcwd', 'delete', 'signal',
        'dynamic_cast', 'swap', 'reset', 'rdbuf', 'tie', 'make_pair', 'push_back', 'push_front', 'insert', 'find', 'set_impl'}


def strip(n):
    while n is not None:
        k = n.get('k')
        if k in ('cast', 'icast') and len(n.get('c') or []) == 1 and n.get('ck') not in ('Dynamic',):
            n = n['c'][0]
        elif k == 'ctor' and n.get('ck') in ('copy', 'move') and len(n.get('a') or []) == 1:
            n = n['a'][0]
        elif k == 'init' and len(n.get('a') or []) == 1:
            n = n['a'][0]
        else:
            return n
    return n


def handle(ty):
    return bool(ty) and not ty.get('ptr') and bool(HANDLE.match(ty.get('cls') or ''))


def pointer(ty):
    """An object pointer or a handle."""
    if not ty:
        return False
    if ty.get('ptr'):
        return not (ty.get('pt') or {}).get('fn') and '(*)' not in (ty.get('s') or '')
    return handle(ty)


def is_null(n):
    n = strip(n)
    return n is not None and (n.get('k') in ('null', 'nullptr') or n.get('k') == 'int' and n.get('v') == 0 and True
                              or n.get('k') == 'ctor' and handle(n.get('ty')) and (not n.get('a') or all(a.get('da') for a in n['a']) or len(n['a']) == 1 and is_null(n['a'][0]))
                              or n.get('k') == 'zero' and pointer(n.get('ty')))


# facts: path -> 'null' (it is), 'maybe' (it may be), 'ok' (it is not),
#        'arg' (as the caller gave it, nothing known)
St = namedtuple('St', 'facts conds')
NEW = St(frozenset(), frozenset())


class World:
    def __init__(self, prog):
        self.prog = prog
        self.mayret = {}         # function -> why its result may be null
        self.needs = {}          # function -> {param index: where it is dereferenced}
        self.fneeds = {}         # method -> {field: where}
        self.preds = {}
        self.nullable = {}       # (class, field) -> why
        self.pure = {}
        self.leaves = {}         # constructor -> fields it leaves null
        self.est = {}
        self.effects = {}        # method -> {field: what it may be afterwards}

    def established(self, c):
        """Every constructor of class c hands something new to its base or to
        one of its own functions."""
        if c not in self.est:
            ctors = [f for f in self.prog.real_fns() if f.cls == c and f.d.get('ctor') and self.own(f) and not f.d.get('impl')]

            def gives(f, depth=0):
                for i in f.inits or []:
                    if not i.get('field') and i.get('e') is not None and any(strip(a) is not None and strip(a).get('k') == 'new' for x in walk(i['e']) if x.get('k') in ('ctor', 'call') for a in x.get('a') or []):
                        return True
                for n in f.nodes():
                    if n.get('k') == 'call' and n.get('obj') is not None and strip(n['obj']).get('k') == 'this':
                        if any(strip(a) is not None and strip(a).get('k') == 'new' for a in n.get('a') or []):
                            return True
                        t = self.prog.fn(n.get('fn'))
                        if depth < 2 and t is not None and t.cls == c and self.own(t) and gives(t, depth + 1):
                            return True
                return False
            self.est[c] = bool(ctors) and all(gives(f) for f in ctors)
        return self.est[c]

    def own(self, f):
        return f is not None and f.body is not None and f.file.startswith(REPO)

    def pred(self, f):
        """A method that only says whether one of its fields is null:
        (field path, truth that says it is not)."""
        if f.usr in self.preds:
            return self.preds[f.usr]
        self.preds[f.usr] = None
        r = None
        if self.own(f) and f.cls and not f.params and (f.d.get('ret') or {}).get('b'):
            rets = [n for n in walk(f.body) if n.get('k') == 'ret']
            if len(rets) == 1 and len(f.body.get('c') or []) == 1 and rets[0].get('e') is not None:
                W = Null(self.prog, self, f)
                r = W.test(rets[0]['e'], NEW)
                if r is not None and not (r[0][0] == 'this'):
                    r = None
        self.preds[f.usr] = r
        return r

    def is_pure(self, f):
        if f.usr not in self.pure:
            self.pure[f.usr] = True
            ok = self.own(f) and not written_fields(self.prog).get(f.usr)
            if ok:
                for n in f.nodes():
                    if n.get('k') in ('new', 'del', 'throw') or n.get('k') == 'bin' and n['op'] in ASSIGN:
                        ok = False
                    elif n.get('k') == 'call':
                        t = self.prog.fn(n.get('fn'))
                        if self.own(t):
                            ok = ok and (n.get('n') in ('get', 'operator->', 'operator*') or n.get('op') in ('->', '*') or self.is_pure(t))
                        elif not n.get('op'):
                            ok = False
            self.pure[f.usr] = ok
        return self.pure[f.usr]


class Null(Flow):
    MAX_STATES = 1500

    def __init__(self, prog, w, fn):
        super().__init__(prog)
        self.w, self.fn = w, fn
        self.bad = {}             # id(node) -> (node, what, why)
        self.done = {}            # id(node) -> node
        self.why = {}             # path -> where it became so
        self.need = {}            # root path -> node
        self.retnull = None
        self.args = {}
        self.others = self.tries = False

    # -- paths -----------------------------------------------------------------------
    def path(self, n):
        n = strip(n)
        if n is None:
            return None
        k = n.get('k')
        if k == 'var':
            if n.get('dk') in ('local', 'param'):
                return (('v', n['id']),)
            return (('g', n.get('q') or n.get('n')),)
        if k == 'this':
            return ('this',)
        if k == 'field':
            b = self.path(n['b'])
            return b + (n['n'],) if b else None
        if k == 'idx':
            i = strip(n['c'][1])
            b = self.path(n['c'][0])
            return b + ('[%d]' % i['v'],) if b and i is not None and i.get('k') == 'int' else None
        if k == 'un' and n['op'] == '*':
            b = self.path(n['c'][0])
            return b if b == ('this',) else b + ('*',) if b else None
        if k == 'un' and n['op'] == '&':
            b = self.path(n['c'][0])
            return b[:-1] if b and len(b) > 1 and b[-1] == '*' else None
        if k == 'call':
            o = n.get('obj')
            if o is not None and handle(strip(o).get('ty')):
                if n.get('op') == '->' or n.get('n') == 'get' and not n.get('a'):
                    return self.path(o)
                if n.get('op') == '*':
                    b = self.path(o)
                    return b + ('*',) if b else None
                if (n.get('n') or '').startswith('operator ') and not n.get('a'):
                    return self.path(o)
            if n.get('op') == '=' and o is not None:
                return self.path(o)
            if o is not None and not [a for a in n.get('a') or [] if not a.get('da')] and not n.get('op') and pointer(n.get('ty')):
                t = self.prog.fn(n.get('fn'))
                if t is not None and self.w.is_pure(t):
                    b = self.path(o)
                    if b and n.get('arrow') and b != ('this',):
                        b = b + ('*',)
                    return b + ('()' + n['n'],) if b else None
        if k == 'bin' and n['op'] == '=':
            return self.path(n['c'][0])
        return None

    def fact(self, st, p):
        v = dict(st.facts).get(p) if p else None
        return {'argnull': 'null', 'argok': 'ok'}.get(v, v)

    def put(self, st, p, v, keep=False):
        if p is None:
            return st
        n = len(p)
        fs = [(a, b) for a, b in st.facts if not (a[:n] == p and (a == p or not keep))]
        if v is not None:
            fs.append((p, v))
        cs = st.conds if keep else frozenset((a, b) for a, b in st.conds if not self.mentions(a, p))
        return St(frozenset(fs), cs)

    @staticmethod
    def mentions(c, p):
        n = len(p)
        if isinstance(c, tuple) and c and c[0] == 'same':
            return False
        if isinstance(c, tuple) and c and c[0] == 'alias':
            return c[1][:n] == p or c[2][:n] == p
        return c[:n] == p

    def kill(self, st, p):
        """Something below p may have changed."""
        n = len(p)
        fs = frozenset((a, b) for a, b in st.facts if not (a[:n] == p and len(a) > n))
        cs = frozenset((a, b) for a, b in st.conds if not (a[:n] == p and len(a) > n))
        return St(fs, cs)

    # -- what an expression is -------------------------------------------------------
    def value(self, n, st):
        """null / maybe / ok / None for a pointer or handle expression."""
        n = strip(n)
        if n is None:
            return None
        k = n.get('k')
        if is_null(n):
            return 'null'
        if k in ('new', 'this', 'str', 'lambda') or k == 'un' and n['op'] == '&':
            return 'ok'
        if k == 'cast' and n.get('ck') == 'Dynamic' and (n.get('ty') or {}).get('ptr'):
            return 'maybe'
        if k == 'ctor' and handle(n.get('ty')) and n.get('a'):
            return self.value(n['a'][0], st)
        if k == 'bin' and n['op'] == '=':
            return self.value(n['c'][1], st)
        p = self.path(n)
        f = self.fact(st, p)
        if f is not None:
            return f
        if k == 'field' and f is None and strip(n['b']).get('k') != 'this' and (n.get('rec'), n['n']) in SPEC and p and self.others:
            return 'maybe'
        if k == 'call':
            if n.get('n') in MAYBE and not self.w.own(self.prog.fn(n.get('fn'))) and (n.get('ty') or {}).get('ptr') and (n.get('obj') is None):
                return 'maybe'
            ts = {t.usr for t in self.prog.targets(n)} | {n.get('fn')}
            if any(t in self.w.mayret for t in ts):
                o = strip(n['obj']) if n.get('obj') is not None else None
                g = self.prog.fn(n.get('fn'))
                if o is not None and o.get('k') == 'this' and g is not None and self.fn.cls and g.cls != self.fn.cls and self.w.established(self.fn.cls):
                    return None
                return 'maybe'
        return None

    # -- tests -----------------------------------------------------------------------
    def test(self, n, st):
        """(path, truth that says it is not null)."""
        n = strip(n)
        if n is None:
            return None
        k = n.get('k')
        if k == 'un' and n['op'] == '!':
            t = self.test(n['c'][0], st)
            return (t[0], not t[1]) if t else None
        if k in ('bin', 'call') and n.get('op') in ('==', '!='):
            xs = n.get('c') if k == 'bin' else ([n['obj']] if n.get('obj') is not None else []) + list(n.get('a') or [])
            if len(xs) == 2:
                for a, b in ((0, 1), (1, 0)):
                    if is_null(xs[b]) and pointer(strip(xs[a]).get('ty')):
                        p = self.path(xs[a])
                        if p:
                            return (p, n['op'] == '!=')
                    if strip(xs[b]).get('k') in ('bool', 'int') and strip(xs[b]).get('v') in (0, False):
                        t = self.test(xs[a], st)
                        if t:
                            return (t[0], t[1] == (n['op'] == '!='))
            return None
        if k == 'call' and n.get('obj') is not None:
            o = strip(n['obj'])
            if handle(o.get('ty')) and not n.get('a'):
                if n.get('op') == '!' or n.get('n') == 'operator!':
                    p = self.path(o)
                    return (p, False) if p else None
            if (n.get('ty') or {}).get('b') and not n.get('a'):
                t = self.prog.fn(n.get('fn'))
                r = self.w.pred(t) if t is not None and not n.get('virt') else None
                if r:
                    b = self.path(n['obj'])
                    if b:
                        if n.get('arrow') and b != ('this',):
                            b = b + ('*',)
                        return (b + r[0][1:], r[1])
        if pointer(n.get('ty')) or k == 'call' and n.get('obj') is not None and handle(strip(n['obj']).get('ty')) and (n.get('n') or '').startswith('operator '):
            p = self.path(n)
            return (p, True) if p else None
        if k == 'var' and n.get('dk') in ('local', 'param') and (n.get('ty') or {}).get('b'):
            for a, b in st.conds:
                if a == ('same', n['id']):
                    return b
        return None

    def assume(self, n, truth, st):
        t = self.test(n, st)
        if t is not None:
            p, good = t
            f = self.fact(st, p)
            isok = truth == good
            if f == 'null' and isok or f == 'ok' and not isok:
                return ()
            for a, b in st.conds:
                if a[0] == 'alias' and p in (a[1], a[2]):
                    q = a[2] if p == a[1] else a[1]
                    st = self.put(st, q, 'ok' if isok else 'null', keep=True)
            return (self.put(st, p, ('arg' if str(dict(st.facts).get(p)).startswith('arg') else '') + ('ok' if isok else 'null'), keep=True),)
        n = strip(n)
        if n.get('k') == 'bin' and n['op'] in ('==', '!='):
            for a, b in ((0, 1), (1, 0)):
                x, y = strip(n['c'][a]), strip(n['c'][b])
                if y.get('k') in ('int', 'bool') and not y.get('v') and x.get('k') in ('var', 'field') and ((x.get('ty') or {}).get('int') or (x.get('ty') or {}).get('b')):
                    n, truth = x, truth == (n['op'] == '!=')
                    break
        ty = n.get('ty') or {}
        if n.get('k') in ('var', 'field') and (ty.get('b') or ty.get('int')) and not ty.get('ptr'):
            p = self.path(n)
            if p:
                v = dict(st.conds).get(p)
                if v is not None and v != truth:
                    return ()
                return (st._replace(conds=frozenset([(a, b) for a, b in st.conds if a != p] + [(p, truth)])),)
        return (st,)

    def assume_case(self, cond, case, st):
        if case.get('k') == 'nodefault':
            t = (strip(cond).get('ty') or {})
            q = t.get('enum')
            e = self.prog.enums.get(q) if isinstance(q, str) else self.prog.enums.get(t.get('s'))
            if e is not None:
                have = set()
                for c in case['cases']:
                    have.add(c.get('cv'))
                want = {x['v'] if isinstance(x, dict) else x[1] for x in e['c']}
                if want <= have:
                    return ()
        return (st,)

    # -- dereferences ----------------------------------------------------------------
    def follow(self, n, e, st, how):
        """e is dereferenced at n."""
        x = strip(e)
        if x is None or x.get('k') == 'this':
            return st
        v = self.value(x, st)
        p = self.path(x)
        if v is None:
            return st
        self.done.setdefault(id(n), n)
        if v == 'arg':
            self.need.setdefault(p, n)
            return self.put(st, p, 'argok', keep=True)
        if v in ('null', 'maybe'):
            nm = self.name(x)
            self.bad.setdefault(id(n), (n, nm, 'is null' if v == 'null' else 'may be null', how, p))
            return self.put(st, p, None, keep=True) if p else st
        return st

    def name(self, x):
        x = strip(x)
        k = x.get('k')
        if k == 'cast':
            return 'the result of dynamic_cast'
        if k == 'call':
            if x.get('op') in ('->', '*') or x.get('n') == 'get':
                return self.name(x['obj'])
            return 'the result of %s' % x.get('n')
        return x.get('n') or 'a pointer'

    def leaf(self, n, st):
        k = n.get('k')
        if k == 'field' and n.get('arrow'):
            return (self.follow(n, n['b'], st, 'member'),)
        if k == 'un' and n['op'] == '*':
            return (self.follow(n, n['c'][0], st, '*'),)
        if k == 'idx' and (strip(n['c'][0]).get('ty') or {}).get('ptr'):
            return (self.follow(n, n['c'][0], st, '[]'),)
        if k == 'bin' and n['op'] == '=':
            l = n['c'][0]
            p = self.path(l)
            if p is None:
                return (st,)
            if pointer(strip(l).get('ty')):
                v = self.value(n['c'][1], st)
                return (self.alias(self.put(st, p, v if v != 'arg' else None), p, n['c'][1]),)
            return (self.setb(st, p, l, n['c'][1]),)
        if k == 'bin' and n['op'] in ASSIGN or k == 'un' and n['op'] in ('pre++', 'post++', 'pre--', 'post--'):
            p = self.path(n['c'][0])
            if p:
                return (self.put(st, p, None),)
            return (st,)
        if k == 'del':
            return (st,)
        if k in ('call', 'ctor'):
            return (self.call(n, st),)
        return (st,)

    def alias(self, st, p, e):
        q = self.path(e)
        if q and q != p and q[:len(p)] != p:
            st = st._replace(conds=st.conds | {(('alias', p, q), True)})
        return st

    def setb(self, st, p, l, e):
        st = self.put(st, p, None)
        x = strip(e)
        ty = strip(l).get('ty') or {}
        if (ty.get('b') or ty.get('int')) and x is not None:
            if x.get('k') in ('bool', 'int'):
                st = st._replace(conds=st.conds | {(p, bool(x['v']))})
            elif len(p) == 1 and p[0][0] == 'v':
                t = self.test(x, st)
                st = st._replace(conds=frozenset((a, b) for a, b in st.conds if a != ('same', p[0][1])))
                if t:
                    st = st._replace(conds=st.conds | {(('same', p[0][1]), t)})
        return st

    def call(self, n, st):
        k = n['k']
        o = n.get('obj')
        nm = n.get('n')
        args = n.get('a') or []
        ot = (strip(o).get('ty') or {}) if o is not None else {}
        if k == 'call' and o is not None and handle(ot):
            if n.get('op') in ('->', '*'):
                return self.follow(n, o, st, n['op'])
            p = self.path(o)
            if nm == 'reset':
                a = [x for x in args if not x.get('da')]
                v = self.value(a[0], st) if a else 'null'
                return self.put(st, p, v if v != 'arg' else None) if p else st
            if nm == 'release':
                return self.put(st, p, 'null') if p else st
            if n.get('op') == '=' and args:
                v = self.value(args[0], st)
                return self.put(st, p, v if v != 'arg' else None) if p else st
            if nm in ('get',) or n.get('op') in ('!', '==', '!=', '<') or (nm or '').startswith('operator '):
                return st
            if nm == 'swap':
                return self.put(st, p, None) if p else st
        if k == 'call' and o is not None and n.get('arrow') and strip(o).get('k') != 'this':
            x = strip(o)
            if not (x.get('k') == 'call' and x.get('op') == '->'):
                st = self.follow(n, o, st, 'call')
        if k == 'call' and n.get('callee') is not None and o is None:
            pass
        # arguments
        g = self.prog.fn(n.get('fn'))
        ts = list(self.prog.targets(n)) if k == 'call' else []
        if g is not None and g not in ts:
            ts.append(g)
        ts = [t for t in ts if self.w.own(t)]
        for i, a in enumerate(args):
            if a.get('da') or strip(a) is None or strip(a).get('da'):
                continue
            if not pointer(strip(a).get('ty')) and not is_null(a):
                continue
            v = self.value(a, st)
            pt = (n.get('pt') or [])
            if v in ('null', 'maybe', 'arg'):
                used = None
                for t in ts:
                    j = i
                    if i < len(t.params) and i in self.w.needs.get(t.usr, {}) and pointer(t.params[i]['ty']):
                        used = self.w.needs[t.usr][i]
                if not ts and used is None and self.external(n, i, a):
                    used = nm or (n.get('q') or '').split('::')[-1]
                if used is not None:
                    p = self.path(a)
                    self.done.setdefault((id(n), i), n)
                    if v == 'arg':
                        self.need.setdefault(p, n)
                        st = self.put(st, p, None, keep=True)
                    else:
                        self.bad.setdefault((id(n), i), (n, self.name(a) if strip(a).get('k') not in ('int', 'null', 'zero') else 'null', 'is null' if v == 'null' else 'may be null',
                                                          'given to %s, which follows it (%s)' % (nm or (n.get('q') or '').split('::')[-1], used), p))
                        st = self.put(st, p, None, keep=True) if p else st
        # own fields a method relies on
        if k == 'call' and o is not None and ts:
            b = self.path(o)
            if b and n.get('arrow') and b != ('this',) and not handle(ot):
                b = b + ('*',)
            if b:
                if not n.get('virt') or len(ts) == 1:
                    for f, wh in sorted(self.w.fneeds.get(ts[0].usr, {}).items()):
                        q = b + f
                        v = self.fact(st, q)
                        if v is None:
                            continue
                        self.done.setdefault((id(n), f), n)
                        if v == 'arg':
                            self.need.setdefault(q, n)
                            st = self.put(st, q, None, keep=True)
                        elif v in ('null', 'maybe'):
                            self.bad.setdefault((id(n), f), (n, f[-1], 'is null' if v == 'null' else 'may be null', 'and %s follows it (%s)' % (nm, wh), q))
                            st = self.put(st, q, None, keep=True)
                # what the call changes
                if not n.get('mc'):
                    if b == ('this',):
                        for t in ts:
                            ef = self.w.effects.get(t.usr, {})
                            for f in written_fields(self.prog).get(t.usr, ()):
                                vs = ef.get(f, {None})
                                q = ('this', f)
                                old = self.fact(st, q)
                                if 'null' in vs or 'maybe' in vs:
                                    new = 'maybe'
                                elif 'arg' in vs:
                                    new = old
                                elif vs == {'ok'}:
                                    new = 'ok'
                                else:
                                    new = None
                                st = self.put(st, q, new)
                    elif any(not self.w.is_pure(t) for t in ts):
                        st = self.kill(st, b)
        elif k == 'call' and o is not None and not n.get('mc') and n.get('op') in (None, '=', '+=', '>>', '<<'):
            b = self.path(o)
            if b and b != ('this',):
                st = self.kill(st, b)
        # arguments by reference may be given a value
        pt = n.get('pt') or []
        for i, a in enumerate(args):
            p = self.path(a)
            if p is None and strip(a) is not None and strip(a).get('k') == 'un' and strip(a)['op'] == '&':
                p = self.path(strip(a)['c'][0])
                if p:
                    st = self.put(st, p, None)
                continue
            if p and i < len(pt) and pt[i].get('ref') and not pt[i].get('const') and not (pt[i].get('pt') or {}).get('const'):
                st = self.put(st, p, None)
        return st

    def external(self, n, i, a):
        """A function outside the repository that follows this argument."""
        nm = n.get('n')
        ty = strip(a).get('ty') or {}
        pt = n.get('pt') or []
        if n['k'] == 'ctor':
            return (n.get('q') or '').startswith('std::') and 'basic_string' in (n.get('q') or '') and i == 0 and (ty.get('pt') or {}).get('ch')
        if nm in SAFE or n.get('nr'):
            return False
        if not ty.get('ptr') or not (ty.get('pt') or {}).get('ch') and 'FILE' not in (ty.get('s') or '') and '_IO_FILE' not in (ty.get('s') or ''):
            return False
        if n.get('op') in ('==', '!=') and n.get('obj') is None and len(n.get('a') or []) == 2 or n.get('op') in ('+', '+=', '=', '<<', '<', '>') or n.get('op') in ('==', '!='):
            return bool((ty.get('pt') or {}).get('ch'))
        if n.get('obj') is not None:
            return nm in ('append', 'assign', 'compare', 'open', 'find_first_of', 'find_first_not_of', 'find_last_of')
        return bool(re.match(r'^(str|mem|ato|f(gets|puts|printf|scanf|read|write|close|getc|putc|seek|tell|eof|error)|pclose|remove|rename|open|stat|access|puts|exec|system|printf|sprintf|snprintf)', nm or '')) and i < 3

    # -- statements --------------------------------------------------------------------
    def declare(self, v, st):
        p = (('v', v['id']),)
        ty = v.get('ty') or {}
        st = self.put(st, p, None)
        if v.get('static'):
            return (st,)
        i = v.get('init')
        if pointer(ty) and not ty.get('ref'):
            if i is not None:
                x = self.value(i, st)
                st = self.alias(self.put(st, p, x if x != 'arg' else None), p, i)
            elif handle(ty):
                st = self.put(st, p, 'null')
        elif i is not None and strip(i).get('k') == 'ctor' and not ty.get('ref'):
            for f in self.w.leaves.get(strip(i).get('fn'), ()):
                st = self.put(st, p + f, 'null')
        elif i is not None and (ty.get('b') or ty.get('int')) and not ty.get('ptr'):
            st = self.setb(st, p, {'k': 'var', 'dk': 'local', 'id': v['id'], 'ty': ty}, i)
        return (st,)

    def leave(self, v, st):
        return (self.put(st, (('v', v['id']),), None),)

    def init(self, fn, i, S):
        e = i.get('e')
        if e is not None:
            S = self.ev(e, S)
        if i.get('field'):
            p = ('this', i['field'].split('::')[-1])

            def f(s):
                v = self.value(e, s) if e is not None else None
                if e is not None and not pointer(strip(e).get('ty')) and not (strip(e).get('k') in ('null', 'ctor')):
                    v = None
                return (self.put(s, p, v if v != 'arg' else None),)
            if any(x['n'] == p[1] and pointer(x['ty']) for x in self.fieldsof(fn)):
                S = self.many(f, S)
        return S

    def fieldsof(self, fn):
        r = self.prog.rec_q.get(fn.cls)
        return getattr(r, 'fields', None) or []

    def on_return(self, n, st):
        e = n.get('e')
        if e is not None and pointer(self.fn.d.get('ret')) and not (self.fn.d.get('ret') or {}).get('ref'):
            v = self.value(e, st)
            if v in ('null', 'maybe'):
                self.retnull = self.retnull or n
        return (st,)

    def may_throw(self, n, st):
        return (None,) if self.tries else ()


def entry(w, f):
    """The state in which f begins."""
    fs = []
    for i, p in enumerate(f.params):
        if pointer(p.get('ty')) and not (f.n == 'main' and not f.cls):
            fs.append(((('v', p['id']),), 'arg'))
    if f.cls and not f.d.get('ctor') and not f.d.get('static'):
        r = w.prog.rec_q.get(f.cls)
        names = set()
        for c in [f.cls] + list(w.prog.bases(f.cls)):
            r = w.prog.rec_q.get(c)
            for x in getattr(r, 'fields', None) or []:
                if pointer(x['ty']) and not x['ty'].get('arr'):
                    names.add(x['n'])
        fs += [(('this', x), 'arg') for x in names]
    return St(frozenset(fs), frozenset())


def judge(w, f):
    W = Null(w.prog, w, f)
    W.others = not (f.d.get('ctor') or f.d.get('dtor'))
    W.tries = any(n.get('k') == 'try' for n in f.nodes())
    X = W.run(f, {entry(w, f)})
    return W, X


def mine(w, f):
    return f.body is not None and not f.d.get('dep') and f.file.startswith(REPO) and not HANDLE.match(f.cls or '') and not (f.q or '').startswith('witness')


def tested(w, f):
    """Paths that f asks about."""
    W = Null(w.prog, w, f)
    out = set()

    def cond(e):
        if e is None:
            return
        x = strip(e)
        if x is None:
            return
        if x.get('k') == 'bin' and x['op'] in ('&&', '||'):
            cond(x['c'][0]); cond(x['c'][1])
            return
        t = W.test(x, NEW)
        if t:
            out.add(t[0])
    for n in f.nodes():
        k = n.get('k')
        if k in ('if', 'while', 'do', 'for'):
            cond(n.get('cond'))
        elif k == 'cond':
            cond(n['c'][0])
        elif k == 'bin' and n['op'] in ('&&', '||'):
            cond(n)
        elif k == 'un' and n['op'] == '!':
            cond(n['c'][0])
        elif k == 'ret' and (f.d.get('ret') or {}).get('b'):
            cond(n.get('e'))
        elif k in ('bin', 'call') and n.get('op') in ('==', '!='):
            cond(n)
    return out


def handed(f, n):
    """n is inside what f returns."""
    return any(x is n for r in f.nodes() if r.get('k') == 'ret' and r.get('e') is not None for x in walk(r['e']))


def exempt(f):
    return f.n in ('operator*', 'operator->', 'operator++', 'operator--', 'operator[]', 'operator()') or f.d.get('dtor')


def one(g):
    prog = load(g)
    w = World(prog)
    fns = [f for f in prog.real_fns() if mine(w, f)]
    res, und = {}, {}
    # fields that may be null: some constructor leaves them so, or they are put back to null
    for _ in range(4):
        before = (set(w.mayret), {u: set(v) for u, v in w.needs.items()}, {u: set(v) for u, v in w.fneeds.items()})
        for f in fns:
            try:
                W, X = judge(w, f)
            except (Unsupported, RecursionError) as e:
                und[f.usr] = str(e)
                continue
            res[f.usr] = (f, W, X)
            if W.retnull is not None:
                w.mayret[f.usr] = f.at(W.retnull)
            if f.d.get('ctor'):
                ls = [{p[1:] for p, v in s.facts if p[0] == 'this' and len(p) == 2 and v == 'null'} for s in X.ret]
                if ls:
                    w.leaves[f.usr] = set.intersection(*ls)
            if f.cls:
                ef = {}
                for x in written_fields(prog).get(f.usr, ()):
                    ef[x] = {'arg' if str(dict(s.facts).get(('this', x))).startswith('arg') else dict(s.facts).get(('this', x)) for s in X.ret}
                w.effects[f.usr] = ef
            for p, n in W.need.items():
                if len(p) == 1 and p[0][0] == 'v':
                    for i, q in enumerate(f.params):
                        if q['id'] == p[0][1]:
                            w.needs.setdefault(f.usr, {})[i] = f.at(n)
                elif p[0] == 'this' and len(p) == 2:
                    w.fneeds.setdefault(f.usr, {})[p[1:]] = f.at(n)
        if before == (set(w.mayret), {u: set(v) for u, v in w.needs.items()}, {u: set(v) for u, v in w.fneeds.items()}):
            break
    nullable, asked = {}, {}
    for f in fns:
        if f.usr not in res:
            continue
        W, X = res[f.usr][1:]
        if f.cls:
            for p in tested(w, f):
                if p[0] == 'this' and len(p) == 2:
                    asked.setdefault((f.cls, p[1]), set()).add(f.n)
            for s in X.ret:
                for p, v in s.facts:
                    if p[0] == 'this' and len(p) == 2 and v in ('null', 'maybe') and (f.d.get('ctor') or any(n.get('k') in ('call', 'bin') and W.path(n.get('obj') if n['k'] == 'call' else n['c'][0]) == p and (n.get('n') in ('reset', 'release') or n.get('op') == '=') for n in f.nodes())):
                        nullable.setdefault((f.cls, p[1]), f.q)
    outside = set()          # methods called by somebody else than their class
    for f in prog.real_fns():
        if f.body is not None:
            for n in f.nodes():
                if n.get('k') == 'call' and n.get('obj') is not None and n.get('fn'):
                    t = prog.fn(n['fn'])
                    if t is not None and t.cls and t.cls != f.cls:
                        outside.add(t.usr)
    offered = set()          # fields that users of the class can ask about
    for f in fns:
        if f.cls and not f.d.get('acc'):
            t = w.pred(f)
            if t:
                offered.add((f.cls, t[0][1]))
    out = []
    for f in fns:
        if not belongs(f.file, g):
            continue
        if f.usr not in res:
            out.append((f.at(f.body), f.q, 'followed', None, und.get(f.usr, '')))
            continue
        W, X = res[f.usr][1:]
        for k, n in W.done.items():
            if k not in W.bad:
                out.append((f.at(n), f.q, 'followed', True, ''))
        for k, (n, nm, s, how, p) in W.bad.items():
            out.append((f.at(n), f.q, 'followed', False, '%s %s (%s)' % (nm, s, how)))
        ts = tested(w, f)
        for p, n in W.need.items():
            if len(p) == 1 and p in ts:
                out.append((f.at(n), f.q, 'believed', False, 'a parameter is followed here without being asked, though elsewhere in the function it is asked whether it is null'))
            if p[0] == 'this' and len(p) == 2:
                c = f.cls
                key = (c, p[1])
                if key in nullable and (key in asked or key in SPEC) and not exempt(f) and (not f.d.get('acc') or f.d.get('virt') or f.d.get('over') or f.usr in outside) and key not in offered:
                    if (f.d.get('ret') or {}).get('ref') and handed(f, n):
                        continue
                    out.append((f.at(n), f.q, 'believed', False, '%s may be null (after %s) and is asked elsewhere (%s), but is followed here without being asked' % (p[1], nullable[key], ', '.join(sorted(asked.get(key, ()))))))
    return g, out, sorted((prog.fn(u).q, v) for u, v in w.mayret.items()), sorted((k, v, sorted(asked.get(k, ()))) for k, v in nullable.items())


def check(prop):
    ck = Check(prop, 'every dereference of a pointer or handle that is null, or may be by where it came from, is reached only on paths where it has been found not null; '
                     'members a constructor leaves null are asked about in every function an outsider can call', ['pointers of unknown origin are not null', 'memory is not exhausted'])
    groups = ['lib', 'utils'] + list(apps())
    with Pool(8) as p:
        res = p.map(one, groups, chunksize=1)
    seen = {}
    for g, out, mr, nu in res:
        ck.count('programs')
        for at, q, c, ok, msg in out:
            k = (at, c, q)
            if k in seen and (seen[k][0] is False or ok is not False):
                continue
            seen[k] = (ok, msg)
    for (at, c, q), (ok, msg) in sorted(seen.items(), key=repr):
        ck.obligation(c, at, ok, key='%s|%s' % (at.split(':')[0], q), msg='%s: %s' % (q, msg))
    ck.floor('followed', 40)
    return ck.finish()

"""C18: iterators, pointers and references into containers and objects are not
used once what they lead to has gone."""
import re
from multiprocessing import Pool
from .. import ir
from ..ir import walk, children, apps, load, own, belongs
from ..flow import Flow, Unsupported
from ..expr import written_fields
from ..report import Check

VEC = ('std::vector<', 'std::basic_string<', 'std::deque<')
NODE = ('std::list<', 'std::map<', 'std::set<', 'std::multimap<', 'std::multiset<', 'std::unordered_map<', 'std::unordered_set<')
HAND = re.compile(r'^(?:ringing::)?(scoped|cloning|shared)_pointer<|^std::(unique_ptr|auto_ptr|shared_ptr)<')
SHARED = re.compile(r'^(?:ringing::)?shared_pointer<|^std::shared_ptr<')
ITER = re.compile(r'^(const )?(__gnu_cxx::__normal_iterator|std::_Rb_tree_(const_)?iterator|std::_List_(const_)?iterator|std::reverse_iterator|std::_Deque_iterator|std::_Bit_(const_)?iterator|std::__detail::_Node_(const_)?iterator)\b')
PAIR = re.compile(r'^(const )?std::pair<(__gnu_cxx::__normal_iterator|std::_Rb_tree_(const_)?iterator|std::_List_(const_)?iterator)<')
GROW = {'push_back', 'insert', 'emplace', 'emplace_back', 'append', 'operator+=', 'push_front', 'resize', 'replace'}
FULL = {'clear', 'assign', 'operator=', 'reserve', 'shrink_to_fit'}
FIRST = {'begin', 'cbegin', 'front', 'data', 'c_str'}
LAST = {'end', 'cend', 'rbegin', 'crbegin'}
OTHER = {'rend', 'crend', 'find', 'lower_bound', 'upper_bound', 'insert', 'erase', 'emplace', 'equal_range'}
ELEM = {'front', 'back', 'at'}


def cls(ty):
    if not ty:
        return ''
    if ty.get('ptr'):
        return ''
    return (ty.get('cls') or ty.get('s') or '').replace('const ', '', 1) if (ty.get('cls') or ty.get('s') or '').startswith('const ') else (ty.get('cls') or '')


def viewish(ty):
    if not ty:
        return False
    if ty.get('ptr'):
        pt = ty.get('pt') or {}
        return not (pt.get('fn') or '(' in (pt.get('s') or ''))
    return bool(ITER.match(cls(ty)))


def pairish(ty):
    return bool(ty) and not ty.get('ptr') and bool(PAIR.match(cls(ty)))


def strip(n):
    while n is not None:
        k = n.get('k')
        if k in ('cast', 'icast') and len(n.get('c') or []) == 1:
            n = n['c'][0]
        elif k == 'ctor' and n.get('ck') in ('copy', 'move') and len(n.get('a') or []) == 1:
            a = n['a'][0]
            if not (viewish(n.get('ty')) or pairish(n.get('ty')) or a.get('pr')):
                return n
            n = a
        elif k == 'init' and len(n.get('a') or []) == 1:
            n = n['a'][0]
        elif k == 'ctor' and viewish(n.get('ty')) and len(n.get('a') or []) == 1 and viewish((n['a'][0] or {}).get('ty')):
            n = n['a'][0]
        else:
            return n
    return n


class Ctx:
    """Names of things: which container an expression denotes, and into which
    container an iterator, pointer or reference leads."""

    def __init__(self, prog, fn):
        self.prog = prog; self.fn = fn
        self.refs = {}            # reference local -> its initialiser
        self.decl = {}            # local -> declaration
        self.kinds = {}
        for n in fn.nodes():
            if n.get('k') == 'decl':
                for v in n.get('c', []):
                    self.note(v)
            elif n.get('k') == 'rfor' and n.get('var'):
                self.decl[n['var']['id']] = n['var']
        self.mentions = None

    def note(self, v):
        self.decl[v['id']] = v
        if v['ty'].get('ref') and v.get('init') is not None:
            self.refs[v['id']] = v['init']

    def kind(self, ty):
        if not ty:
            return None
        if ty.get('ptr'):
            return None
        return self.kind_of(cls(ty))

    def kind_of(self, c):
        if c in self.kinds:
            return self.kinds[c]
        self.kinds[c] = None
        k = None
        if c.startswith(VEC):
            k = 'vec'
        elif c.startswith(NODE):
            k = 'node'
        elif HAND.match(c):
            k = 'hand'
        else:
            for b in self.prog.bases(c) if c else ():
                k = self.kind_of(b)
                if k:
                    break
        self.kinds[c] = k
        return k

    # -- containers ----------------------------------------------------------
    def key(self, n, env=None, d=0):
        n = strip(n)
        if n is None or d > 6:
            return None
        k = n.get('k')
        if k == 'var':
            if n['dk'] in ('local', 'param'):
                if env is not None and n['dk'] == 'param':
                    ps = env[0]
                    i = n.get('id')
                    if i in ps:
                        a, e = ps[i]
                        return self.key(a, e, d + 1)
                    return None
                if env is not None:
                    return None
                if n['dk'] == 'local' and n['id'] in self.refs:
                    x = self.key(self.refs[n['id']], None, d + 1)
                    if x is not None and x[0] != 'tmp':
                        return x
                return ('v', n.get('id'))
            return ('g', n.get('q') or n.get('usr'))
        if k == 'this':
            if env is not None:
                return env[1]
            return ('this',)
        if k == 'field':
            b = strip(n['b'])
            if b is None:
                return None
            if b.get('k') == 'this':
                kb = self.key(b, env, d + 1)
                if kb == ('this',):
                    return ('f', n['n'])
                return kb and ('m', kb, n['n'])
            bt = b.get('ty') or {}
            kb = self.key(b, env, d + 1)
            if kb is None:
                return None
            if bt.get('ptr') and b.get('k') != 'call':
                return ('m', ('d', kb), n['n'])
            return ('m', kb, n['n'])
        if k == 'un' and n['op'] == '*':
            kb = self.key(n['c'][0], env, d + 1)
            if kb == ('this',) and (strip(n['c'][0]) or {}).get('k') == 'this' or kb and env is not None and (strip(n['c'][0]) or {}).get('k') == 'this':
                return kb
            return kb and ('d', kb)
        if k == 'un' and n['op'] == '&':
            return None
        if k == 'call':
            if n.get('op') in ('*', '->'):
                o = n.get('obj') or (n.get('a') or [None])[0]
                if viewish((strip(o) or {}).get('ty')):
                    kb = self.key(o, env, d + 1)
                    return kb and kb[0] != 'tmp' and ('d', kb) or None
                if self.kind((strip(o) or {}).get('ty')) == 'hand':
                    kb = self.key(o, env, d + 1)
                    return kb and ('h', kb) or None
            if n.get('pr'):
                return ('tmp', id(n))
            e = self.inline(n, env)
            if e is not None:
                t, env2 = e
                r = (t.get('ret') if isinstance(t, dict) else t.d.get('ret')) or {}
                if r.get('ref'):
                    return self.key(self.single(t), env2, d + 1)
            if n.get('op') in ('=', '+=', '<<', '*=', '-=') and n.get('obj') is not None and not n.get('pr'):
                return self.key(n['obj'], env, d + 1) if n['op'] != '<<' else None
            return None
        if k == 'ctor' and n.get('pr'):
            return ('tmp', id(n))
        if k == 'cond' and n.get('pr'):
            return ('tmp', id(n))
        return None

    def inline(self, n, env):
        """A call of a function that is one return statement: (function, env)."""
        ts = self.prog.targets(n)
        if len(ts) != 1 or n.get('virt'):
            return None
        t = ts[0]
        if self.single(t) is None:
            return None
        ps = {}
        a = n.get('a') or []
        for i, p in enumerate(t.params):
            if i < len(a):
                ps[p['id']] = (a[i], env)
        ob = None
        if n.get('obj') is not None:
            o = strip(n['obj'])
            ob = self.key(o, env)
            if ob is not None and (o.get('ty') or {}).get('ptr') and o.get('k') != 'this' and not (o.get('k') == 'call' and o.get('op') == '->'):
                ob = ('d', ob)
        return t, (ps, ob)

    def single(self, t):
        b = t.body
        while b is not None and b.get('k') == 'block':
            c = [x for x in b.get('c', []) if x is not None and x.get('k') != 'nop']
            if len(c) != 1:
                return None
            b = c[0]
        return b.get('e') if b is not None and b.get('k') == 'ret' else None

    # -- views ---------------------------------------------------------------
    def vkey(self, n):
        """Name of a variable that holds an iterator or pointer."""
        n = strip(n)
        if n is None:
            return None
        k = n.get('k')
        if k == 'var' and n['dk'] in ('local', 'param'):
            return ('v', n.get('id'))
        if k == 'field':
            b = strip(n['b'])
            if b is None:
                return None
            if b.get('k') == 'this':
                return ('f', n['n'])
            if pairish(b.get('ty')) or b.get('k') == 'var' and n['n'] in ('first', 'second'):
                v = self.vkey(b)
                return v and ('m', v, n['n'])
        return None

    def view(self, n, st=None, env=None, d=0):
        """(container, token or None, tag) the value of n leads into."""
        n = strip(n)
        if n is None or d > 6:
            return None
        k = n.get('k')
        if k in ('var', 'field'):
            if env is not None:
                if k == 'var' and n.get('dk') == 'param' and n.get('id') in env[0]:
                    a, e = env[0][n['id']]
                    return self.view(a, st, e, d + 1)
                return None
            v = self.vkey(n)
            if v is not None and st is not None:
                for f in st:
                    if f[0] == 'w' and f[1] == v:
                        return (f[2], f[3], None)
            return None
        if k == 'call':
            nm = n.get('n'); op = n.get('op')
            o = n.get('obj')
            ty = n.get('ty')
            if op in ('++', '--'):
                x = o if o is not None else n['a'][0]
                post = bool(n.get('a')) if o is not None else len(n.get('a') or []) > 1
                if post and st is not None:
                    for f in st:
                        if f[0] == 'o' and f[1] == id(n):
                            return (f[2], f[3], None)
                w = self.view(x, st, env, d + 1)
                return w and (w[0], None if post else w[1], None)
            if not (viewish(ty) or pairish(ty)):
                return None
            if o is not None and (nm in FIRST or nm in LAST or nm in OTHER or nm == 'get'):
                kd = self.kind(self.oty(o))
                if kd and (nm != 'get' or kd == 'hand') and nm not in ELEM:
                    if nm in ('c_str', 'data') or viewish(ty) or pairish(ty):
                        c = self.okey(o, env, d)
                        if c is not None and nm == 'find' and kd == 'node' and n.get('a') and env is None and not ((strip(n['a'][0]) or {}).get('k') == 'field' and strip(n['a'][0])['n'] == 'second'):
                            # looking an element up by its own key finds it
                            w = self.elem(n['a'][0], st, env, d + 1) or (st is not None and self.refview(n['a'][0], st))
                            if w and w[0] == c and w[1] is not None:
                                return (c, w[1], None)
                        if c is not None:
                            return (c, None, 'begin' if nm in FIRST else 'end' if nm in LAST else self.place(n['a'][0], env) if nm == 'find' and n.get('a') else '')
                    return None
            if op == '+' and o is not None and n.get('a'):
                w = self.view(o, st, env, d + 1)
                if w and w[2] == 'begin':
                    return (w[0], None, self.place(n['a'][0], env))
            if op in ('+', '-', '+=', '-=') or (n.get('q') or '').startswith('std::') and o is None:
                for a in ([o] if o is not None else []) + (n.get('a') or []):
                    if viewish((strip(a) or {}).get('ty')):
                        w = self.view(a, st, env, d + 1)
                        if w:
                            return (w[0], None, None)
                return None
            e = self.inline(n, env)
            if e is not None:
                w = self.view(self.single(e[0]), None, e[1], d + 1)
                if w is not None:
                    return (w[0], None, w[2])
            elif o is None:
                # a helper that is handed an iterator and gives one back
                ws = [self.view(a, st, env, d + 1) for a in n.get('a') or [] if viewish((strip(a) or {}).get('ty'))]
                if len(ws) == 1 and ws[0]:
                    at = cls(strip([a for a in n['a'] if viewish((strip(a) or {}).get('ty'))][0])['ty'])
                    if at and at == cls(ty):
                        return (ws[0][0], None, None)
            return None
        if k == 'un' and n['op'] == '&':
            return self.elem(n['c'][0], st, env, d + 1) or self.address(n['c'][0], env, d)
        if k == 'un' and n['op'] in ('pre++', 'pre--'):
            return self.view(n['c'][0], st, env, d + 1)
        if k == 'un' and n['op'] in ('post++', 'post--'):
            if st is not None:
                for f in st:
                    if f[0] == 'o' and f[1] == id(n):
                        return (f[2], f[3], None)
            return None
        if k == 'bin' and n['op'] in ('+', '-') and (n.get('ty') or {}).get('ptr'):
            for c in n['c']:
                if ((strip(c) or {}).get('ty') or {}).get('ptr'):
                    w = self.view(c, st, env, d + 1)
                    return w and (w[0], None, None)
            return None
        if k == 'bin' and n['op'] in ('=', '+=', '-='):
            return self.view(n['c'][0], st, env, d + 1)
        if k == 'cond':
            a = self.view(n['c'][1], st, env, d + 1); b = self.view(n['c'][2], st, env, d + 1)
            if a and b and a[0] == b[0]:
                return (a[0], a[1] if a[1] == b[1] else None, None)
            for x in (a, b):
                if x and x[0] and x[0][0] == 'tmp':
                    return x
            return None
        return None

    def address(self, n, env, d):
        """&x: the object x itself."""
        n = strip(n)
        if n is None or n.get('k') not in ('var', 'field', 'idx'):
            return None
        if n.get('k') == 'idx':
            n = strip(n['c'][0])
            if n is None or not (n.get('ty') or {}).get('arr'):
                return None
        c = self.key(n, env, d + 1)
        return c and (('addr', c), None, None)

    def refview(self, x, st):
        v = self.vkey(x)
        if v is not None and not viewish((strip(x) or {}).get('ty')):
            for f in st:
                if f[0] == 'w' and f[1] == v:
                    return (f[2], f[3], None)
        return None

    def place(self, x, env):
        """Tag of the element at index, or with key, x."""
        x = strip(x)
        if env is None and x is not None and x.get('k') == 'var':
            return ('at', ('v', x.get('id')) if x['dk'] in ('local', 'param') else ('g', x.get('q')))
        return ''

    def copied(self, c):
        """The handle c is copied somewhere in this function."""
        for n in self.fn.nodes():
            for a in n.get('a') or []:
                if isinstance(a, dict):
                    x = a
                    while x.get('k') in ('cast', 'icast') or x.get('k') == 'ctor' and x.get('ck') in ('copy', 'move') and len(x.get('a') or []) == 1:
                        x = x['c'][0] if x.get('c') else x['a'][0]
                    if x.get('k') in ('var', 'field') and self.key(x) == c:
                        return True
        return False

    def oty(self, o):
        o = strip(o)
        t = (o or {}).get('ty') or {}
        if t.get('ptr'):
            return t.get('pt')
        return t

    def okey(self, o, env=None, d=0):
        """Key of the object a member function is called on."""
        s = strip(o)
        c = self.key(s, env, d + 1)
        if c is None:
            return None
        t = s.get('ty') or {}
        if t.get('ptr') and s.get('k') != 'this' and not (s.get('k') == 'call' and s.get('op') == '->'):
            return ('d', c)
        return c

    def elem(self, n, st=None, env=None, d=0):
        """View made by taking a reference to (a part of) an element."""
        n = strip(n)
        if n is None or d > 6:
            return None
        k = n.get('k')
        if k == 'field':
            b = strip(n['b'])
            if b is None or b.get('k') == 'this':
                return None
            if b.get('k') == 'var' and (b.get('ty') or {}).get('ptr'):
                return self.view(b, st, env, d + 1)
            return self.elem(b, st, env, d + 1)
        if k == 'var':
            if env is not None:
                if n.get('dk') == 'param' and n.get('id') in env[0]:
                    a, e = env[0][n['id']]
                    return self.elem(a, st, e, d + 1)
                return None
            if n.get('dk') == 'local' and n['id'] in self.refs and st is not None:
                for f in st:
                    if f[0] == 'w' and f[1] == ('v', n['id']):
                        return (f[2], f[3], None)
            return None
        if k == 'idx':
            b = strip(n['c'][0])
            if (b.get('ty') or {}).get('ptr'):
                w = self.view(b, st, env, d + 1)
                return w and (w[0], None, None)
            return None
        if k == 'un' and n['op'] == '*':
            return self.view(n['c'][0], st, env, d + 1)
        if k == 'bin' and n['op'] == ',':
            return self.elem(n['c'][1], st, env, d + 1)
        if k == 'cond':
            a = self.elem(n['c'][1], st, env, d + 1); b = self.elem(n['c'][2], st, env, d + 1)
            if a and b and a[0] == b[0]:
                return (a[0], a[1] if a[1] == b[1] else None, a[2] if a[2] == b[2] else None)
            return None
        if k == 'call':
            op, nm, o = n.get('op'), n.get('n'), n.get('obj')
            if op in ('*', '->'):
                x = o if o is not None else (n.get('a') or [None])[0]
                if viewish((strip(x) or {}).get('ty')):
                    return self.view(x, st, env, d + 1)
                if self.kind((strip(x) or {}).get('ty')) == 'hand':
                    c = self.okey(x, env, d)
                    return c and (c, None, '')
                return None
            if n.get('pr'):
                return None
            if o is not None and (op == '[]' or nm in ELEM):
                kd = self.kind(self.oty(o))
                if kd in ('vec', 'node') and (n.get('q') or '').startswith('std::'):
                    c = self.okey(o, env, d)
                    return c and (c, None, 'begin' if nm == 'front' else 'back' if nm == 'back' else self.place((n.get('a') or [None])[0], env))
            e = self.inline(n, env)
            if e is not None and (e[0].d.get('ret') or {}).get('ref'):
                w = self.elem(self.single(e[0]), None, e[1], d + 1)
                if w:
                    return (w[0], None, w[2])
                c = self.key(self.single(e[0]), e[1], d + 1)
                if c is not None and c[0] == 'm':
                    return (('addr', c), None, None)
        return None

    # -- what a call does to containers --------------------------------------
    def changes(self, n):
        """[(container, how, argument)] for what call n itself restructures."""
        out = []
        if n.get('k') != 'call':
            return out
        nm, o, a = n.get('n'), n.get('obj'), n.get('a') or []
        q = n.get('q') or ''
        std = q.startswith('std::')
        if o is not None:
            kd = self.kind(self.oty(o))
            if kd and (std or kd == 'hand' or not self.prog.targets(n)):
                c = self.okey(o)
                if c is not None and not n.get('mc'):
                    if kd == 'vec':
                        if nm in FULL:
                            out.append((c, 'all', None))
                        elif nm in GROW:
                            out.append((c, 'grow', None))
                        elif nm == 'pop_back':
                            out.append((c, 'back', None))
                        elif nm == 'pop_front':
                            out.append((c, 'front', None))
                        elif nm == 'erase':
                            if a and viewish((strip(a[0]) or {}).get('ty')):
                                out.append((c, 'one+', a[0]))
                            elif not a:
                                out.append((c, 'all', None))
                            else:
                                out.append((c, 'some', None))
                        elif nm == 'swap':
                            out.append((c, 'swap', None))
                            if a:
                                c2 = self.key(a[0])
                                if c2:
                                    out.append((c2, 'swap', None))
                    elif kd == 'node':
                        if nm in ('clear', 'assign', 'operator='):
                            out.append((c, 'all', None))
                        elif nm == 'erase':
                            if a and viewish((strip(a[0]) or {}).get('ty')):
                                out.append((c, 'one' if len(a) == 1 else 'one+', a[0]))
                            else:
                                out.append((c, 'key', a[0] if a else None))
                        elif nm == 'pop_back':
                            out.append((c, 'back', None))
                        elif nm == 'pop_front':
                            out.append((c, 'front', None))
                        elif nm in ('remove', 'remove_if', 'unique', 'resize', 'merge'):
                            out.append((c, 'some', None))
                        elif nm in ('swap', 'splice'):
                            out.append((c, 'swap', None))
                            for x in a:
                                c2 = self.key(x)
                                if c2 and self.kind((strip(x) or {}).get('ty')):
                                    out.append((c2, 'swap', None))
                    elif kd == 'hand':
                        if nm in ('reset', 'operator='):
                            out.append((c, 'some' if SHARED.match(cls(self.oty(o))) and self.copied(c) else 'all', None))
                        elif nm in ('swap', 'release'):
                            out.append((c, 'swap', None))
                return out
        if std:
            ps = n.get('pt') or []
            for i, x in enumerate(a):
                t = ps[i] if i < len(ps) and isinstance(ps[i], dict) else None
                if t and t.get('ref') and not t.get('const') and not (t.get('s') or '').startswith('const '):
                    if self.kind((strip(x) or {}).get('ty')):
                        c = self.key(x)
                        if c is not None:
                            out.append((c, 'swap' if nm == 'swap' else 'all' if nm in ('getline', 'operator>>') else 'some', None))
            return out
        # the program's own functions
        ts = self.prog.targets(n)
        if ts:
            sums = [summary(self.prog, t) for t in ts]
            for kk in set().union(*[set(s) for s in sums]):
                cert = all(s.get(kk) for s in sums)
                c = None
                if kk[0] == 'p':
                    if kk[1] < len(a):
                        c = self.key(a[kk[1]])
                        if c is not None and len(kk) > 2:
                            c = ('m', c, kk[2])
                elif kk[0] in ('f', 'this') and o is not None:
                    ob = self.okey(o)
                    if ob is not None:
                        if kk[0] == 'this':
                            c = ob
                        else:
                            c = ('f', kk[1]) if ob == ('this',) else ('m', ob, kk[1])
                if c is not None:
                    out.append((c, 'all' if cert else 'some', None))
        elif not n.get('op'):
            ps = n.get('pt') or []
            for i, x in enumerate(a):
                t = ps[i] if i < len(ps) and isinstance(ps[i], dict) else None
                if t and t.get('ref') and not t.get('const') and not (t.get('s') or '').startswith('const ') and self.kind((strip(x) or {}).get('ty')):
                    c = self.key(x)
                    if c is not None:
                        out.append((c, 'some', None))
        return out


def inner(prog, q):
    """{member: the one other member its value leads into}."""
    memo = prog.__dict__.setdefault('_inner', None)
    if memo is None:
        memo = {}
        for f in prog.real_fns():
            if not f.cls:
                continue
            cx = None
            src = [(i['field'].split('::')[-1], i['e'], True) for i in f.inits if i.get('field') and i.get('e') is not None]
            for n in f.nodes():
                if n.get('k') == 'bin' and n['op'] == '=':
                    l, r = n['c']
                elif n.get('k') == 'call' and n.get('op') == '=' and n.get('obj') is not None and n.get('a'):
                    l, r = n['obj'], n['a'][0]
                else:
                    continue
                l = strip(l)
                if l is not None and l.get('k') == 'field' and strip(l['b']) is not None and strip(l['b']).get('k') == 'this' and viewish(l.get('ty')):
                    src.append((l['n'], r, False))
            for (fl, e, ini) in src:
                cx = cx or Ctx(prog, f)
                w = cx.view(e, frozenset())
                if ini and w is None:
                    x = strip(e)
                    if x is not None and x.get('k') in ('call', 'un'):
                        w = cx.elem(e, frozenset())
                if w and w[0][0] == 'f' and w[0][1] != fl:
                    memo.setdefault((f.cls, fl), set()).add(w[0][1])
        prog.__dict__['_inner'] = memo
    return {k[1]: min(v) for k, v in memo.items() if k[0] == q and len(v) == 1}


def helpers(prog):
    """Functions their own class calls."""
    if '_helpers' not in prog.__dict__:
        out = set()
        for f in prog.real_fns():
            if f.cls:
                for n in f.nodes():
                    if n.get('k') == 'call':
                        for t in prog.targets(n):
                            if t.cls == f.cls:
                                out.add(t.usr)
        prog.__dict__['_helpers'] = out
    return prog.__dict__['_helpers']


def roomy(prog):
    """(class, field) of the containers some function makes room in."""
    if '_roomy' not in prog.__dict__:
        out = set()
        for f in prog.real_fns():
            for n in f.nodes():
                if n.get('k') == 'call' and n.get('n') == 'reserve' and n.get('obj') is not None:
                    o = strip(n['obj'])
                    if o is not None and o.get('k') == 'field' and strip(o['b']).get('k') == 'this':
                        out.add((f.cls, o['n']))
        prog.__dict__['_roomy'] = out
    return prog.__dict__['_roomy']


def summary(prog, fn):
    """{('p', i[, field]) | ('f', name) | ('this',): certain} for the containers
    function fn may restructure."""
    memo = prog.__dict__.setdefault('_life', {})
    if fn.usr in memo:
        return memo[fn.usr]
    memo[fn.usr] = {}
    if fn.d.get('dtor') or fn.body is None or fn.d.get('ctor'):
        return {}
    cx = Ctx(prog, fn)
    ps = {}
    for i, p in enumerate(fn.params):
        t = p['ty']
        if t.get('ref') and not t.get('const') and not (t.get('s') or '').startswith('const '):
            ps[p['id']] = i
    out = {}

    def role(c):
        if c[0] == 'v' and c[1] in ps:
            return ('p', ps[c[1]])
        if c[0] == 'm' and c[1][0] == 'v' and c[1][1] in ps:
            return ('p', ps[c[1][1]], c[2])
        if c[0] == 'f' or c == ('this',):
            return c
        return None
    certain = set()
    plain = True
    for s in (fn.body.get('c', []) if fn.body.get('k') == 'block' else [fn.body]):
        if s is None:
            continue
        if s.get('k') in ('if', 'while', 'for', 'do', 'switch', 'try', 'rfor', 'block'):
            if any(x.get('k') in ('ret', 'throw') for x in walk(s)):
                break
            continue
        if s.get('k') == 'ret' and s.get('e') is None:
            break
        for x in walk(s):
            if x.get('k') in ('cond', 'lambda') or x.get('k') == 'bin' and x['op'] in ('&&', '||'):
                break
            certain.add(id(x))
    for n in fn.nodes():
        for (c, how, _) in cx.changes(n):
            r = role(c)
            if r is None:
                continue
            cert = how == 'all' and id(n) in certain
            out[r] = out.get(r, False) or cert
            if how == 'grow':
                out.setdefault(r, False)
    memo[fn.usr] = out
    return out


class Life(Flow):
    MAX_STATES = 3000

    def __init__(self, prog, fn, learn=True):
        super().__init__(prog)
        self.fn = fn
        self.twice = {}
        if learn:
            for n in fn.nodes():
                for x in conds(n):
                    x = strip(x)
                    if x.get('k') == 'var':
                        k = ('b', x.get('id'))
                    else:
                        c = test(x)
                        k = c and c[0]
                    if k:
                        self.twice[k] = self.twice.get(k, 0) + 1
        self.cx = Ctx(prog, fn)
        self.uses = {}     # (vkey) -> [count, bad or None]
        self.bad = []      # (clause, node, message)
        self.soft = []
        self.made = []     # sources judged: (node, ok)
        self.names = {}
        for p in fn.params:
            self.names[p['id']] = p['n']
        for v in self.cx.decl.values():
            self.names[v['id']] = v['n']
        self.byval = {p['id'] for p in fn.params if not p['ty'].get('ref')}

    def name(self, v):
        if v[0] == 'v':
            return self.names.get(v[1], '?')
        if v[0] == 'f':
            return v[1]
        if v[0] == 'm':
            return '%s.%s' % (self.name(v[1]), v[2])
        return 'the element' if v[0] == 'r' else str(v)

    # -- states --------------------------------------------------------------
    def entry(self):
        """What the members that lead into other members lead into."""
        if self.fn.d.get('ctor') or self.fn.inits or not self.fn.cls or self.fn.d.get('static'):
            return {frozenset()}
        return {frozenset(('w', ('f', p), ('f', c), ('entry', p)) for p, c in inner(self.prog, self.fn.cls).items())}

    def toks(self, st):
        return {f[3] for f in st if f[0] in ('w', 'o')}

    def fresh(self, n, st):
        i = 0
        used = self.toks(st)
        while (id(n), i) in used:
            i += 1
        return (id(n), i)

    def unbind(self, st, v):
        def about(c):
            return c is not None and (c == ('d', v) or any(isinstance(x, tuple) and about(x) for x in c))
        out = set()
        for f in st:
            if f[0] == 'w' and (f[1] == v or f[1][0] == 'm' and f[1][1] == v):
                continue
            if f[0] in ('w', 'o') and about(f[2]):
                continue
            out.add(f)
        return frozenset(out)

    def tidy(self, st):
        live = self.toks(st)
        return frozenset(f for f in st if f[0] not in ('g', 't') or f[1] in live)

    def bind(self, n, st, v, w):
        """v now holds the view w (None: something unknown)."""
        st = self.unbind(st, v)
        if w is None:
            return self.tidy(st)
        c, tok, tag = w
        add = set()
        if tok is None:
            tok = self.fresh(n, st)
            st = frozenset(f for f in st if not (f[0] in ('g', 't') and f[1] == tok))
            if tag:
                add.add(('t', tok, tag))
        add.add(('w', v, c, tok))
        return self.tidy(st | add)

    def gone(self, st, pick, where, certain):
        """pick(container, token) -> True/None/False: which views are lost."""
        g = {f[1]: f[3] for f in st if f[0] == 'g'}
        add = set()
        for f in st:
            if f[0] in ('w', 'o'):
                r = pick(f[2], f[3])
                if r is False or g.get(f[3]):
                    continue
                add.add(('g', f[3], where, bool(certain and r is True)))
        if not add:
            return st
        cert = {f[1] for f in add if f[3]}
        st = frozenset(f for f in st if not (f[0] == 'g' and f[1] in cert)) | {f for f in add if f[3] or f[1] not in cert and f[1] not in g}
        # what was found through a lost iterator is lost with it
        lostv = {f[1] for f in st if f[0] == 'w' and f[3] in cert}

        def via(c):
            return c is not None and (c[0] == 'd' and c[1] in lostv or any(isinstance(x, tuple) and via(x) for x in c))
        if lostv and any(f[0] == 'w' and via(f[2]) and not any(h[0] == 'g' and h[1] == f[3] and h[3] for h in st) for f in st):
            return self.gone(st, lambda c, t: True if via(c) else False, where, True)
        return st

    # -- uses ----------------------------------------------------------------
    def use(self, n, v, st):
        for f in st:
            if f[0] == 'w' and f[1] == v:
                u = self.uses.setdefault(v, [set(), None])
                u[0].add(id(n))
                for g in st:
                    if g[0] == 'g' and g[1] == f[3]:
                        m = '%s is used after %s at %s' % (self.name(v), 'what it leads to has gone' if g[3] else 'what it leads to may have gone', g[2])
                        if g[3]:
                            if not u[1]:
                                u[1] = (n, m)
                                self.bad.append(('use', n, m))
                        else:
                            self.soft.append((n, m))
                return

    def ev(self, n, S):
        if n is not None and S:
            k = n.get('k')
            lhs = rhs = None
            if k == 'bin' and n['op'] == '=':
                lhs, rhs = n['c'][0], n['c'][1]
            elif k == 'call' and n.get('op') == '=' and n.get('obj') is not None and n.get('a'):
                lhs, rhs = n['obj'], n['a'][0]
            if lhs is not None:
                t = (strip(lhs) or {}).get('ty')
                v = self.cx.vkey(lhs) if viewish(t) or pairish(t) else None
                if v is not None and not (v[0] == 'v' and v[1] in self.cx.refs):
                    S = self.ev(rhs, S)
                    S = self.many(lambda s: self.store(n, v, t, rhs, s), S)
                    return S
            if k == 'un' and n['op'] == '&':
                x = strip(n['c'][0])
                if x is not None and x.get('k') == 'var':
                    return S
        return super().ev(n, S)

    def store(self, n, v, t, rhs, st):
        if pairish(t):
            return (self.pair(n, v, rhs, st),)
        w = self.cx.view(rhs, st)
        if w is None:
            r = strip(rhs)
            if r is not None and (r.get('ty') or {}).get('ptr') and self.cx.vkey(r) is not None:
                # two names for one unknown object
                v2 = self.cx.vkey(r)
                st = self.bind(r, st, v2, (('obj',), None, None))
                w = self.cx.view(rhs, st)
        self.source(n, v, w)
        return (self.bind(n, st, v, w),)

    def pair(self, n, v, rhs, st):
        w = self.cx.view(rhs, st)
        st = self.unbind(st, v)
        if w is None:
            return self.tidy(st)
        self.source(n, v, w)
        st = self.bind(n, st, ('m', v, 'first'), (w[0], None, ''))
        i = strip(rhs)
        both = i is None or i.get('n') != 'insert'
        if both:
            st = st | {('w', ('m', v, 'second'), w[0], self.fresh(n, st))}
        return st

    def source(self, n, v, w):
        c = w and w[0]
        while c is not None and c[0] == 'm':
            c = c[1]
        ok = True
        if c is not None and c[0] == 'tmp':
            ok = False
        if w is not None:
            self.made.append((n, self.name(v), ok))
        return ok

    def declare(self, v, st):
        t = v['ty']
        k = ('v', v['id'])
        i = v.get('init')
        if v.get('static'):
            return (st,)
        if t.get('ref'):
            st = self.unbind(st, k)
            if i is None:
                return (st,)
            w = self.cx.elem(i, st)
            if w is not None:
                self.source(i, k, w)
                return (self.bind(i, st, k, w),)
            x = self.cx.key(i)
            if x is not None and x[0] == 'tmp' and not (strip(i) or {}).get('pr'):
                self.made.append((i, v['n'], False))
            return (st,)
        if viewish(t) or pairish(t):
            if i is None:
                return (self.tidy(self.unbind(st, k)),)
            return self.store(i, k, t, i, st)
        st = frozenset(f for f in st if not (f[0] == 'b' and f[1] == v['id'] or f[0] == 'c' and k in f[1] or f[0] == 't' and f[2] == ('at', k)))
        if t.get('b') and not t.get('ptr'):
            x = strip(i)
            if x is not None and x.get('k') == 'bool':
                st = st | {('b', v['id'], bool(x['v']))}
        return (st,)

    def loop_var(self, n, st):
        h = ('r', id(n))
        v = n.get('var')
        c = self.cx.key(n.get('range'))
        if c is None or not self.cx.kind(self.cx.oty(n.get('range'))):
            return (st,)
        self.use(n, h, st)
        st = self.bind(n, st, h, (c, None, ''))
        if v is not None and v['ty'].get('ref'):
            st = self.bind(n, st, ('v', v['id']), self.cxview(h, st))
        return (st,)

    def cxview(self, v, st):
        for f in st:
            if f[0] == 'w' and f[1] == v:
                return (f[2], f[3], None)
        return None

    def leave(self, v, st):
        k = ('v', v['id'])
        if not v['ty'].get('ref') and not v.get('static'):
            def pick(c, t):
                while c is not None and c[0] in ('m', 'addr', 'h'):
                    c = c[1]
                return c == k
            st = self.gone(st, pick, 'the end of the life of %s' % v['n'], True)
        st = self.unbind(st, k)
        st = frozenset(f for f in st if not (f[0] == 'b' and f[1] == v['id'] or f[0] == 'c' and k in f[1] or f[0] == 't' and f[2] == ('at', k)))
        return (self.tidy(st),)

    def assume(self, n, truth, st):
        n = strip(n)
        if n is not None and n.get('k') == 'var' and n.get('dk') in ('local', 'param') and not (n.get('ty') or {}).get('ptr'):
            for f in st:
                if f[0] == 'b' and f[1] == n['id']:
                    return (st,) if f[2] == truth else ()
            if self.twice.get(('b', n['id']), 0) > 1:
                return (st | {('b', n['id'], truth)},)
            return (st,)
        c = test(n)
        if c is not None and self.twice.get(c[0], 0) > 1:
            t = truth == c[1]
            for f in st:
                if f[0] == 'c' and f[1] == c[0]:
                    return (st,) if f[2] == t else ()
            return (st | {('c', c[0], t)},)
        return (st,)

    def forget(self, x, st):
        x = strip(x)
        if x is None or x.get('k') != 'var' or x.get('dk') not in ('local', 'param'):
            return st
        i = x.get('id')
        return frozenset(f for f in st if not (f[0] == 'b' and f[1] == i or f[0] == 'c' and ('v', i) in f[1]))

    def leaf(self, n, st):
        k = n.get('k')
        if k == 'var':
            if n.get('dk') in ('local', 'param'):
                v = ('v', n.get('id'))
                self.use(n, v, st)
            return (st,)
        if k == 'field':
            v = self.cx.vkey(n)
            if v is not None:
                self.use(n, v, st)
            return (st,)
        if k == 'bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>=') or k == 'un' and n['op'] in ('pre++', 'pre--', 'post++', 'post--'):
            st = self.forget(n['c'][0], self.moved(n['c'][0], st))
        elif k == 'call' and (n.get('op') in ('=', '+=', '-=', '++', '--', '*=', '>>')):
            x = n['obj'] if n.get('obj') is not None else n['a'][0]
            st = self.forget(x, self.moved(x, st))
            if n.get('op') == '>>' and n.get('a'):
                st = self.forget(n['a'][-1], self.moved(n['a'][-1], st))
        elif k == 'un' and n['op'] == '&':
            st = self.forget(n['c'][0], st)
        elif k == 'decl':
            pass
        if k == 'bin' and n['op'] == '=':
            x = strip(n['c'][0])
            if x is not None and x.get('k') == 'var' and (x.get('ty') or {}).get('b'):
                st = frozenset(f for f in st if not (f[0] == 'b' and f[1] == x.get('id')))
                r = strip(n['c'][1])
                if r is not None and r.get('k') == 'bool' and x.get('dk') == 'local':
                    st = st | {('b', x['id'], bool(r['v']))}
            return (st,)
        if k == 'un' and n['op'] in ('pre++', 'pre--', 'post++', 'post--'):
            return (self.step(n, n['c'][0], n['op'].startswith('post'), st),)
        if k == 'bin' and n['op'] in ('+=', '-='):
            return (self.step(n, n['c'][0], False, st),)
        if k == 'del':
            x = n['c'][0]
            v = self.cx.vkey(x)
            if v is not None:
                w = self.cxview(v, st)
                if w is None:
                    st = self.bind(n, st, v, (('obj',), None, None))
                    w = self.cxview(v, st)
                st = self.gone(st, lambda c, t: t == w[1], self.fn.at(n), True)
            return (st,)
        if k != 'call':
            return (st,)
        op = n.get('op')
        if op in ('++', '--', '+=', '-='):
            x = n['obj'] if n.get('obj') is not None else (n.get('a') or [None])[0]
            if viewish((strip(x) or {}).get('ty')):
                post = op in ('++', '--') and (bool(n.get('a')) if n.get('obj') is not None else len(n.get('a') or []) > 1)
                return (self.step(n, x, post, st),)
        self.handed(n, st)
        for (c, how, arg) in self.cx.changes(n):
            st = self.restructure(n, c, how, arg, st)
        # iterators handed over by reference come back unknown
        ps = n.get('pt') or []
        for i, a in enumerate(n.get('a') or []):
            t = ps[i] if i < len(ps) and isinstance(ps[i], dict) else None
            if t and t.get('ref') and not t.get('const') and not (t.get('s') or '').startswith('const ') and not (t.get('s') or '').endswith('*const &'):
                x = strip(a)
                if x is not None and (viewish(x.get('ty')) or pairish(x.get('ty'))):
                    v = self.cx.vkey(x)
                    if v is not None:
                        w = self.cxview(v, st)
                        st = self.bind(n, st, v, w and (w[0], None, None))
                st = self.forget(x, st)
        # a member function may move this object's own iterators about
        if n.get('obj') is not None and (strip(n['obj']) or {}).get('k') == 'this' and not n.get('mc'):
            ts = self.prog.targets(n)
            wf = written_fields(self.prog)
            moved = set().union(*[wf.get(t.usr, set()) for t in ts]) if ts else None
            st = self.tidy(frozenset(f for f in st if not (f[0] == 'w' and f[1][0] == 'f' and (moved is None or f[1][1] in moved) and not (self.field_type(f[1][1]) or {}).get('ref'))))
        return (st,)

    def handed(self, n, st):
        """A reference into a container is handed to a function that takes the
        thing away and goes on to use it."""
        if n.get('virt') or n.get('op'):
            return
        ts = self.prog.targets(n)
        if len(ts) != 1:
            return
        t = ts[0]
        su = None
        for i, a in enumerate(n.get('a') or []):
            if i >= len(t.params) or not t.params[i]['ty'].get('ref'):
                continue
            w = self.cx.elem(a, st)
            if w is None:
                v = self.cx.vkey(a)
                w = v and self.cxview(v, st)
                if w and viewish((strip(a) or {}).get('ty')):
                    w = None
            if not w:
                continue
            if su is None:
                su = summary(self.prog, t)
            roles = []
            ob = n.get('obj') is not None and self.cx.okey(n['obj'])
            if w[0][0] == 'f' and ob == ('this',):
                roles.append(w[0])
            elif w[0][0] == 'm' and ob and w[0][1] == ob:
                roles.append(('f', w[0][2]))
            for j, b in enumerate(n.get('a') or []):
                if j != i and self.cx.key(b) == w[0]:
                    roles.append(('p', j))
            for r in roles:
                if r in su and hazard(self.prog, t, i, r):
                    m = 'a reference into %s is handed to %s, which takes away what it refers to and then uses it' % (where_of(w[0], self), t.q)
                    self.bad.append(('use', n, m))

    def moved(self, x, st):
        v = self.cx.place(x, None)
        return frozenset(f for f in st if not (f[0] == 't' and f[2] == v)) if v else st

    def step(self, n, x, post, st):
        v = self.cx.vkey(x)
        w = v and self.cxview(v, st)
        if not w:
            return st
        if post:
            st = frozenset(f for f in st if not (f[0] == 'o' and f[1] == id(n))) | {('o', id(n), w[0], w[1])}
        st2 = self.bind(n, st, v, (w[0], None, None))
        return st2

    def restructure(self, n, c, how, arg, st):
        where = self.fn.at(n)
        tags = {f[1]: f[2] for f in st if f[0] == 't'}

        def part(x):
            """x is a container inside c (or an element's)."""
            return x is not None and x != c and x[0] in ('m', 'addr', 'h') and (x[1] == c or part(x[1]))
        if how == 'swap':
            return self.tidy(frozenset(f for f in st if not (f[0] in ('w', 'o') and f[2] == c)))
        if how == 'key':
            t0 = self.cx.place(arg, None)
            w = arg is not None and (self.cx.elem(arg, st) or self.cx.vkey(arg) and self.cxview(self.cx.vkey(arg), st))
            if w and w[0] == c and w[1] is not None:
                st = self.gone(st, lambda x, t: t == w[1], where, True)
            return self.gone(st, lambda x, t: (True if t0 and tags.get(t) == t0 else None) if x == c and tags.get(t) not in ('begin', 'end') else False, where, True)
        if how == 'all':
            if n.get('n') in ('clear', 'reserve', 'assign'):
                st = st | {('room', c, 'lots')}
            else:
                st = frozenset(f for f in st if not (f[0] == 'room' and f[1] == c))
            return self.gone(st, lambda x, t: True if x == c else False, where, True)
        if how == 'some':
            return self.gone(st, lambda x, t: None if x == c and tags.get(t) != 'begin' else False, where, False)
        if how == 'grow':
            sure = not any(f[0] == 'room' and f[1] == c for f in st) and not (c[0] == 'f' and (self.fn.cls, c[1]) in roomy(self.prog))
            if n.get('n') in ('push_back', 'emplace_back'):
                st = st - {('room', c, 'one')}
            else:
                st = frozenset(f for f in st if not (f[0] == 'room' and f[1] == c and f[2] == 'one'))
            return self.gone(st, lambda x, t: (True if sure or tags.get(t) == 'end' else None) if x == c else False, where, True)
        if how == 'back':
            st = st | {('room', c, 'one')}
            return self.gone(st, lambda x, t: (True if tags.get(t) in ('back', 'end') else None) if x == c and (tags.get(t) in ('back', 'end')) else False, where, True)
        if how == 'front':
            return self.gone(st, lambda x, t: True if x == c and tags.get(t) == 'begin' else False, where, True)
        if how in ('one', 'one+'):
            w = self.cx.view(arg, st)
            tok = w and w[1]
            if how == 'one+':
                st = st | {('room', c, 'one')}
            t0 = w and w[2] and w[2][0] == 'at' and w[2]
            if t0:
                st = self.gone(st, lambda x, t: True if x == c and tags.get(t) == t0 else False, where, True)
            if tok is not None:
                st = self.gone(st, lambda x, t: True if t == tok else False, where, True)
            if how == 'one+' or tok is None:
                vec = how == 'one+' and self.cx.kind(self.cx.oty(n['obj'])) == 'vec'
                st = self.gone(st, lambda x, t: (True if vec and tags.get(t) == 'end' else None) if x == c and t != tok and tags.get(t) not in (('begin',) if vec else ('begin', 'end')) else False, where, True)
            return st
        return st

    # -- results -------------------------------------------------------------
    def local(self, c, byref):
        """c is (part of) something that dies with the function."""
        while c is not None and c[0] in ('m', 'addr', 'h') :
            c = c[1]
        if c is None:
            return None
        if c[0] == 'tmp':
            return 'a temporary'
        if c[0] == 'v':
            i = c[1]
            d = self.cx.decl.get(i)
            if d is not None:
                if d.get('static') or d['ty'].get('ref'):
                    return None
                return 'the local %s' % d['n']
            if i in self.byval:
                return 'the by-value parameter %s' % self.names.get(i, '?')
        return None

    def on_return(self, n, st):
        e = n.get('e')
        r = self.fn.d.get('ret') or {}
        if e is None:
            return (st,)
        c = None
        if r.get('ref'):
            w = self.cx.elem(e, st)
            c = w[0] if w else self.cx.key(e)
            if w is None and c is not None and c[0] == 'd':
                c = None
        elif viewish(r):
            w = self.cx.view(e, st)
            c = w and w[0]
        else:
            return (st,)
        if c is not None and c[0] == 'v' and viewish((self.cx.decl.get(c[1]) or {}).get('ty')) and not r.get('ref'):
            return (st,)
        what = self.local(c, True) if c is not None else None
        self.made.append((n, 'the result', True))
        if what:
            self.bad.append(('return', n, 'the result leads into %s' % what))
        return (st,)

    def init(self, fn, i, S):
        S = super().init(fn, i, S)
        e = i.get('e')
        f = i.get('field')
        if not f or e is None:
            return S
        t = i.get('ty') or self.field_type(f)
        if t and t.get('ref'):
            x = strip(e)
            c = self.cx.key(x)
            what = 'a temporary' if x is not None and x.get('pr') else c is not None and self.local(c, True)
            self.made.append((e, f, True))
            if what:
                self.bad.append(('member', e, 'the reference member %s is bound to %s' % (f, what)))
            return self.many(lambda s: (self.bind(e, s, ('f', f), self.cx.elem(e, s)),), S)
        if t and viewish(t):
            return self.many(lambda s: self.store(e, ('f', f), t, e, s), S)
        return S

    def field_type(self, f):
        r = self.prog.rec_q.get(self.fn.cls)
        for x in (r.fields if r else ()):
            if x['n'] == f.split('::')[-1]:
                return x['ty']
        return None


def where_of(c, L):
    if c[0] == 'f':
        return c[1]
    if c[0] == 'm':
        return c[2]
    return L.name(c) if c[0] == 'v' else 'a container'


def hazard(prog, fn, i, role):
    memo = prog.__dict__.setdefault('_hazard', {})
    k = (fn.usr, i, role)
    if k in memo:
        return memo[k]
    memo[k] = False
    L = Life(prog, fn)
    c = role if role[0] == 'f' else ('v', fn.params[role[1]]['id'])
    v = ('v', fn.params[i]['id'])
    try:
        L.run(fn, {frozenset([('w', v, c, ('param', i))])})
    except Unsupported:
        return False
    memo[k] = bool(L.uses.get(v) and L.uses[v][1])
    return memo[k]


def conds(n):
    """The atomic conditions statement or expression n tests."""
    k = n.get('k')
    st = []
    if k in ('if', 'while', 'do', 'for') and n.get('cond') is not None:
        st = [n['cond']]
    elif k == 'cond':
        st = [n['c'][0]]
    while st:
        x = strip(st.pop())
        if x is None:
            continue
        if x.get('k') == 'bin' and x['op'] in ('&&', '||'):
            st += x['c']
        elif x.get('k') == 'un' and x['op'] == '!':
            st.append(x['c'][0])
        else:
            yield x


def test(n):
    """A comparison of plain variables and numbers: (what, sense)."""
    if n is None or n.get('k') != 'bin' or n['op'] not in ('==', '!=', '<', '>', '<=', '>='):
        return None

    def side(x):
        x = strip(x)
        if x is not None and x.get('k') == 'var' and x.get('dk') in ('local', 'param'):
            return ('v', x.get('id'))
        if x is not None and x.get('k') in ('int', 'chr', 'enum', 'bool'):
            return ('n', x.get('v'))
        return None
    a, b = side(n['c'][0]), side(n['c'][1])
    if a is None or b is None:
        return None
    op = n['op']
    if op in ('==', '!='):
        return ('==',) + tuple(sorted((a, b), key=repr)), op == '=='
    if op in ('>', '<='):
        a, b = b, a
    return ('<', a, b), op in ('<', '>')


def wants(prog, fn):
    """Whether anything in fn could be a view."""
    r = fn.d.get('ret') or {}
    if r.get('ref') or viewish(r):
        return True
    if fn.inits or fn.cls and inner(prog, fn.cls):
        return True
    for n in fn.nodes():
        k = n.get('k')
        if k == 'decl' and any(v['ty'].get('ref') or viewish(v['ty']) or pairish(v['ty']) for v in n.get('c', [])):
            return True
        if k in ('rfor', 'del'):
            return True
        if k == 'bin' and n['op'] == '=' and viewish((strip(n['c'][0]) or {}).get('ty')):
            return True
    return any(viewish(p['ty']) or pairish(p['ty']) for p in fn.params)


def judge(prog, fn):
    """[(clause, where, ok, message)]"""
    out = []
    L = Life(prog, fn)
    sure = True
    try:
        X = L.run(fn, L.entry())
    except Unsupported as e:
        L = Life(prog, fn, False)
        sure = None
        try:
            X = L.run(fn, L.entry())
        except Unsupported as e:
            return [('use', fn.at(), None, 'not followed: %s' % e)]
    if not fn.d.get('dtor'):
        for st in X.ret:
            for f in st:
                if f[0] == 'w' and f[1][0] == 'f':
                    what = L.local(f[2], False)
                    c = f[2]
                    gs = [g for g in st if g[0] == 'g' and g[1] == f[3] and g[3] and g[2].startswith('the end')]
                    own_ = [g for g in st if g[0] == 'g' and g[1] == f[3] and g[3] and not g[2].startswith('the end')]
                    if own_ and not gs and not what and c[0] == 'f' and inner(prog, fn.cls).get(f[1][1]) == c[1] and fn.usr not in helpers(prog):
                        L.bad.append(('member', fn.body, 'the member %s is left leading where %s was before %s' % (f[1][1], c[1], own_[0][2])))
                    if gs or what:
                        L.bad.append(('member', fn.body, 'the member %s is left leading into %s' % (f[1][1], what or 'a local, past ' + gs[0][2])))
    done = set()
    for c, n, m in L.bad:
        if (c, id(n), m) not in done:
            done.add((c, id(n), m))
            out.append((c, fn.at(n), False if sure else None, m))
    for n, m in L.soft:
        if ('use', id(n)) not in done:
            done.add(('use', id(n)))
            out.append(('use', fn.at(n), None, m))
    seen = {}
    for n, v, ok in L.made:
        k = (id(n), v)
        seen[k] = (n, v, seen.get(k, (0, 0, True))[2] and ok)
    for n, v, ok in seen.values():
        out.append(('source', fn.at(n), ok, '%s leads into a temporary that is gone by the end of the statement' % v))
    for v, (us, bad) in L.uses.items():
        if bad is None:
            out.append(('use', '%s (%s)' % (fn.at(), L.name(v)), True, ''))
    return out


def held(prog):
    """constructor usr -> {parameter index: where} of the reference parameters
    an object goes on referring to."""
    out = {}
    ctors = [f for f in prog.real_fns() if f.inits]
    ch = True
    while ch:
        ch = False
        for f in ctors:
            ids = {p['id']: i for i, p in enumerate(f.params) if p['ty'].get('ref')}
            if not ids:
                continue
            r = prog.rec_q.get(f.cls)
            ft = {x['n']: x['ty'] for x in r.fields} if r else {}
            for i in f.inits:
                e = strip(i.get('e'))
                if e is None:
                    continue
                if i.get('field') and (ft.get(i['field'].split('::')[-1]) or {}).get('ref') and e.get('k') == 'var' and e.get('dk') == 'param' and e.get('id') in ids:
                    k = ids[e['id']]
                    if k not in out.setdefault(f.usr, {}):
                        out[f.usr][k] = i['field']; ch = True
                elif i.get('field') and (ft.get(i['field'].split('::')[-1]) or {}).get('ptr') and e.get('k') == 'un' and e['op'] == '&':
                    x = strip(e['c'][0])
                    if x is not None and x.get('k') == 'var' and x.get('dk') == 'param' and x.get('id') in ids:
                        k = ids[x['id']]
                        if k not in out.setdefault(f.usr, {}):
                            out[f.usr][k] = i['field']; ch = True
                elif e.get('k') == 'ctor' and e.get('fn') in out:
                    for j, a in enumerate(e.get('a') or []):
                        a = strip(a)
                        if j in out[e['fn']] and a is not None and a.get('k') == 'var' and a.get('dk') == 'param' and a.get('id') in ids:
                            k = ids[a['id']]
                            if k not in out.setdefault(f.usr, {}):
                                out[f.usr][k] = out[e['fn']][j]; ch = True
    return out


def objects(prog, fns, H):
    """Objects that outlive the statement that makes them, made with temporaries
    they go on referring to."""
    for f in fns:
        def chk(n):
            n = n if n is None or n.get('k') != 'new' else n.get('init')
            n = strip(n)
            if n is not None and n.get('k') == 'ctor' and n.get('fn') in H:
                for j, a in enumerate(n.get('a') or []):
                    if j in H[n['fn']]:
                        a0 = strip(a)
                        yield n, H[n['fn']][j], not (a0 is not None and a0.get('pr'))
        src = []
        for n in f.nodes():
            if n.get('k') == 'decl':
                src += [v['init'] for v in n.get('c', []) if v.get('init') is not None]
            elif n.get('k') == 'new':
                src.append(n)
        for i in f.inits:
            if i.get('e') is not None and i.get('field'):
                src.append(i['e'])
        for s in src:
            for n, fld, ok in chk(s):
                yield ('member', f.at(n), ok, '%s: the object goes on referring (by %s) to a temporary' % (f.q, fld))


def one(g):
    prog = load(g)
    out = []
    nf = 0
    fns = list(own(prog))
    for fn in fns:
        if fn.body is None or fn.d.get('dep') or not wants(prog, fn):
            continue
        nf += 1
        for (c, at, ok, m) in judge(prog, fn):
            out.append((c, at, ok, '%s: %s' % (fn.q, m), fn.q))
    for (c, at, ok, m) in objects(prog, fns, held(prog)):
        out.append((c, at, ok, m, at))
    return g, nf, out


def check(prop):
    ck = Check(prop, 'for each function, along every path: each iterator, pointer and reference local (and iterator member) is tied to the container or object it leads into; '
                     'a call that restructures or destroys that takes away what led there; anything taken away may not be mentioned again, returned or left in a member',
               ['two differently spelt paths do not name one container', 'a container that has been given room, or shrunk, may grow in place'])
    groups = ['lib', 'utils'] + list(apps())
    with Pool(8) as p:
        res = p.map(one, groups, chunksize=1)
    seen = {}
    for g, nf, out in res:
        ck.count('programs'); ck.count('functions with iterators, pointers or references', nf)
        for c, at, ok, m, q in out:
            k = (c, at)
            if k in seen and (seen[k][0] is False or ok is True):
                continue
            seen[k] = (ok, m, q)
    for (c, at), (ok, m, q) in sorted(seen.items(), key=repr):
        ck.obligation(c, at, ok, key='%s|%s' % (at.split(':')[0], q), msg=m)
    ck.floor('use', 100)
    ck.floor('source', 100)
    return ck.finish()

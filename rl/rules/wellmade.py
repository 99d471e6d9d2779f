"""C21: a row, change or bell made from what is outside is what it says it is.

Rows: whatever comes from outside the class and is put among a row's bells is
followed by a call of the class's own check on every path out, and that check
looks at every place, for bells beyond the end and for bells seen before.
Changes and bells: what comes from outside is only used under comparisons that
bound it (difference facts collected from the conditions on the path)."""
from collections import Counter
from ..ir import walk, children, load
from ..flow import Flow, Unsupported
from ..expr import strip, ASSIGN
from ..report import Check
from .naming import core

GROW = {'push_back', 'insert', 'assign', 'emplace_back', 'swap', 'emplace'}


def leafcore(n):
    n = core(n)
    for _ in range(8):
        if n is not None and n.get('k') == 'ctor' and n.get('q') in ('ringing::bell',) and len([a for a in n.get('a') or [] if not a.get('da')]) == 1:
            n = core(n['a'][0])
        elif n is not None and n.get('k') in ('cast', 'icast') and n.get('c'):
            n = core(n['c'][0])
        else:
            return n
    return n


class Terms:
    """Texts and linear forms of expressions in one function."""
    def __init__(self, prog, f, own):
        self.prog, self.f, self.own = prog, f, own
        self.same = {}                                  # param id -> field it initialises
        for i in f.inits:
            e = leafcore(i['e']) if i.get('e') is not None else None
            if i.get('field') and e is not None and e.get('k') == 'var' and e.get('dk') == 'param' and (e.get('ty') or {}).get('int'):
                self.same[e['id']] = 'this.' + i['field'].split('::')[-1]
        self.consts = {}
        mod = Counter()
        for n in f.nodes():
            if n.get('k') == 'decl':
                for v in n.get('c') or []:
                    if v.get('init') is not None and not v.get('static'):
                        self.consts[v['id']] = v
            t = None
            if n.get('k') == 'bin' and n['op'] in ASSIGN:
                t = n['c'][0]
            elif n.get('k') == 'un' and n['op'] in ('pre++', 'pre--', 'post++', 'post--', '&'):
                t = n['c'][0]
            elif n.get('k') == 'call' and n.get('obj') is not None and not n.get('mc'):
                t = n['obj']
            t = leafcore(t) if t is not None else None
            if t is not None and t.get('k') == 'var' and t.get('dk') == 'local':
                mod[t['id']] += 1
            if n.get('k') in ('call', 'ctor'):
                for a, pt in zip(n.get('a') or [], n.get('pt') or []):
                    if pt.get('ref') and not pt.get('const'):
                        a = leafcore(a)
                        if a is not None and a.get('k') == 'var' and a.get('dk') == 'local':
                            mod[a['id']] += 1
        self.consts = {i: v for i, v in self.consts.items() if not mod[i]}

    def txt(self, n, d=0):
        n = leafcore(n)
        if n is None or d > 12:
            return None
        k = n.get('k')
        if k == 'this':
            return 'this'
        if k == 'var':
            if n.get('dk') == 'param' and n.get('id') in self.same:
                return self.same[n['id']]
            if n.get('dk') == 'local' and n.get('id') in self.consts and d < 6:
                e = leafcore(self.consts[n['id']]['init'])
                if e is not None and (e.get('k') == 'field' or e.get('k') == 'call' and (e.get('op') == '[]' or e.get('n') in ('size', 'bells', 'length'))):
                    return self.txt(e, d + 1) or 'v%s' % n['id']
            return '%s%s' % ('p' if n.get('dk') == 'param' else 'v', n.get('id')) if n.get('dk') in ('param', 'local') else n.get('q') or n.get('n')
        if k == 'field':
            b = self.txt(n['b'], d + 1)
            return b and b + '.' + n['n']
        if k == 'un' and n['op'] == '*':
            b = self.txt(n['c'][0], d + 1)
            return b and '*' + b
        if k == 'call' and n.get('op') == '*' and n.get('obj') is not None:
            b = self.txt(n['obj'], d + 1)
            return b and '*' + b
        if k == 'call' and n.get('op') == '[]' and n.get('obj') is not None:
            b, i = self.txt(n['obj'], d + 1), self.txt(n['a'][0], d + 1)
            return b and i and '%s[%s]' % (b, i)
        if k == 'sub':
            b, i = self.txt(n['c'][0], d + 1), self.txt(n['c'][1], d + 1)
            return b and i and '%s[%s]' % (b, i)
        if k == 'call' and n.get('n') == 'at' and n.get('obj') is not None and len(n['a']) == 1:
            b, i = self.txt(n['obj'], d + 1), self.txt(n['a'][0], d + 1)
            return b and i and '%s[%s]' % (b, i)
        if k == 'call' and n.get('obj') is not None and not [a for a in n.get('a') or [] if not a.get('da')] and n.get('mc'):
            b = self.txt(n['obj'], d + 1)
            if b is None:
                return None
            if n['n'] in ('size', 'length'):
                return '#' + b
            t = self.prog.fn(n.get('fn')) if n.get('fn') else None
            if t is not None and t.body is not None and b == 'this':
                ss = [s for s in t.body.get('c') or [] if s is not None]
                if len(ss) == 1 and ss[0].get('k') == 'ret' and ss[0].get('e') is not None:
                    return Terms(self.prog, t, self.own).txt(ss[0]['e'], d + 1)
            return '%s.%s()' % (b, n['n'])
        if k in ('int', 'chr', 'bool'):
            return str(int(n['v']))
        return None

    def lin(self, n, d=0):
        """({text: coefficient}, constant) or None."""
        n = leafcore(n)
        if n is None or d > 10:
            return None
        k = n.get('k')
        if k in ('int', 'chr', 'bool'):
            try:
                return {}, int(n['v'])
            except (TypeError, ValueError):
                return None
        if k == 'sizeof' and n.get('v') is not None:
            return {}, int(n['v'])
        op = n.get('op') if k == 'bin' else None
        if k == 'un' and n['op'] == '-':
            a = self.lin(n['c'][0], d + 1)
            return a and ({t: -c for t, c in a[0].items()}, -a[1])
        if k == 'un' and n['op'] == '+':
            return self.lin(n['c'][0], d + 1)
        if op in ('+', '-', '*', '<<'):
            a, b = self.lin(n['c'][0], d + 1), self.lin(n['c'][1], d + 1)
            if a is None or b is None:
                return None
            if op in ('+', '-'):
                s = 1 if op == '+' else -1
                r = Counter(a[0])
                for t, c in b[0].items():
                    r[t] += s * c
                return {t: c for t, c in r.items() if c}, a[1] + s * b[1]
            if op == '*' and (not a[0] or not b[0]):
                if a[0]:
                    a, b = b, a
                return {t: c * a[1] for t, c in b[0].items() if c * a[1]}, a[1] * b[1]
            if op == '<<' and not a[0] and not b[0] and 0 <= b[1] < 63:
                return {}, a[1] << b[1]
            return None
        if k == 'var' and n.get('dk') == 'local' and n.get('id') in self.consts and (n.get('ty') or {}).get('int') is not None:
            e = leafcore(self.consts[n['id']]['init'])
            if e is not None and e.get('k') in ('bin', 'int', 'un') and not (e.get('k') == 'un' and e['op'] not in ('-', '+')):
                r = self.lin(e, d + 1)
                if r is not None:
                    return r
        if k in ('global',) or k == 'var' and n.get('dk') in ('global', 'static') and n.get('cv') is not None:
            return {}, int(n['cv'])
        t = self.txt(n)
        return ({t: 1}, 0) if t else None


def fact(l, r, k):
    """l - r <= k as a fact."""
    s = Counter(l[0])
    for t, c in r[0].items():
        s[t] -= c
    items = frozenset((t, c) for t, c in s.items() if c)
    return items, k - l[1] + r[1]


NEG = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}


class Facts(Flow):
    """State: frozenset of facts ('le', items, k), ('par', items, const, odd), ('zero'...), and marks of the rule."""
    def __init__(self, prog, f, own):
        super().__init__(prog)
        self.f = f
        self.t = Terms(prog, f, own)

    # -- conditions
    def assume(self, n, truth, st):
        n = leafcore(n)
        if n is None:
            return (st,)
        k = n.get('k')
        e = self.inlined(n)
        if e is not None:
            T, F = self.condev(e, {st})
            return tuple(T if truth else F)
        if k == 'un' and n['op'] == '!':
            return self.assume(n['c'][0], not truth, st)
        if k == 'bin' and n['op'] in NEG:
            return self.compare(n['c'][0], n['op'] if truth else NEG[n['op']], n['c'][1], st)
        if k == 'call' and n.get('op') in NEG:
            ab = [n['obj']] + list(n['a']) if n.get('obj') is not None else list(n['a'])
            if len(ab) == 2:
                return self.compare(ab[0], n['op'] if truth else NEG[n['op']], ab[1], st)
        if k == 'bin' and (n['op'] == '%' and self.const(n['c'][1]) == 2 or n['op'] == '&' and self.const(n['c'][1]) == 1):
            l = self.t.lin(n['c'][0])
            return self.parity(l, truth, st) if l is not None else (st,)
        if k == 'bin' and n['op'] == '=':
            return self.assume(n['c'][0], truth, st)
        if k == 'var' and n.get('dk') == 'local' and n.get('id') in self.t.consts and (n.get('ty') or {}).get('b'):
            e = self.t.consts[n['id']]['init']
            if leafcore(e) is not None and leafcore(e).get('k') != 'var':
                T, F = self.condev(e, {st})
                return tuple(T if truth else F)
        if k in ('var', 'field', 'sub') or k == 'un' and n['op'] == '*' or k == 'call' and n.get('op') in ('*', '[]'):
            l = self.t.lin(n)
            if l is not None and not (n.get('ty') or {}).get('ptr'):
                z = ({}, 0)
                if truth:
                    s = self.add(st, ('nz', l[0] and next(iter(l[0])), 0))
                    s = s and self.add(s, ('le',) + fact(({}, 1), l, 0)) if s is not None else None
                else:
                    s = self.add(st, ('le',) + fact(l, z, 0))
                    s = self.add(s, ('le',) + fact(z, l, 0)) if s is not None else None
                return (s,) if s is not None else ()
        return (st,)

    def inlined(self, n):
        """The expression a call of a function that is one return statement stands for."""
        t = self.prog.fn(n.get('fn')) if n.get('k') == 'call' and n.get('fn') and n.get('obj') is None else None
        if t is None or t.body is None or t.usr == self.f.usr:
            return None
        ss = [s for s in t.body.get('c') or [] if s is not None]
        if len(ss) != 1 or ss[0].get('k') != 'ret' or ss[0].get('e') is None:
            return None
        by = {p['id']: a for p, a in zip(t.params, n.get('a') or [])}

        def sub(x):
            if isinstance(x, list):
                return [sub(y) for y in x]
            if not isinstance(x, dict):
                return x
            if x.get('k') == 'var' and x.get('dk') == 'param':
                return by.get(x.get('id'), x)
            if x.get('k') == 'var' and x.get('dk') == 'local':
                return {'k': 'unknown'}
            return {k: sub(y) if isinstance(y, (dict, list)) and k not in ('ty', 'pt', 'tt') else y for k, y in x.items()}
        return sub(ss[0]['e'])

    def const(self, n):
        l = self.t.lin(n)
        return l[1] if l is not None and not l[0] else None

    def compare(self, a, op, b, st):
        A, B = leafcore(a), leafcore(b)
        for x, y in ((A, b), (B, a)):
            if x is not None and x.get('k') == 'bin' and x['op'] in ('%', '&') and op in ('==', '!=') and self.const(y) in (0, 1):
                if self.const(x['c'][1]) == (2 if x['op'] == '%' else 1):
                    l = self.t.lin(x['c'][0])
                    return self.parity(l, (self.const(y) == 1) == (op == '=='), st) if l is not None else (st,)
        l, r = self.t.lin(a), self.t.lin(b)
        if l is None or r is None:
            return (st,)
        if op in ('<', '<='):
            fs = [('le',) + fact(l, r, 0 if op == '<=' else -1)]
        elif op in ('>', '>='):
            fs = [('le',) + fact(r, l, 0 if op == '>=' else -1)]
        elif op == '==':
            fs = [('le',) + fact(l, r, 0), ('le',) + fact(r, l, 0)]
        else:
            t = next(iter(l[0]), None) if len(l[0]) == 1 and not r[0] and r[1] == l[1] else next(iter(r[0]), None) if len(r[0]) == 1 and not l[0] and r[1] == l[1] else None
            fs = [('nz', t, 0)] if t else []
            if t and any(x[0] == 'le' and x[1] == frozenset([(t, 1)]) and x[2] <= 0 for x in st) and any(x[0] == 'le' and x[1] == frozenset([(t, -1)]) and x[2] <= 0 for x in st):
                return ()
        for x in fs:
            st = self.add(st, x)
            if st is None:
                return ()
        return (st,)

    def add(self, st, x):
        if x[0] == 'le':
            if not x[1]:
                return st if 0 <= x[2] else None
            neg = frozenset((t, -c) for t, c in x[1])
            for y in st:
                if y[0] == 'le' and y[1] == neg and y[2] + x[2] < 0:
                    return None
                if y[0] == 'le' and y[1] == x[1] and y[2] <= x[2]:
                    return st
            # values of the library are never negative where they are bells
            return frozenset(y for y in st if not (y[0] == 'le' and y[1] == x[1])) | {x}
        return st | {x}

    def parity(self, l, odd, st):
        items = frozenset((t, c % 2) for t, c in l[0].items() if c % 2)
        odd = odd ^ (l[1] % 2 == 1)
        if ('par', items, not odd) in st:
            return ()
        return (st | {('par', items, odd)},)

    def kill(self, st, t):
        return frozenset(x for x in st if not self.mentions(x, t))

    def mentions(self, x, t):
        if x[0] in ('le', 'par'):
            return any(s == t or (s or '').startswith(t + '[') or ('[' + t + ']') in (s or '') or s == '*' + t for s, _ in x[1])
        return x[0] in ('nz', 'found') and x[1] == t

    def written(self, n):
        """Texts of what this node changes."""
        k = n.get('k')
        if k == 'bin' and n['op'] in ASSIGN:
            return [self.t.txt(n['c'][0])]
        if k == 'un' and n['op'] in ('pre++', 'pre--', 'post++', 'post--'):
            return [self.t.txt(n['c'][0])]
        out = []
        if k == 'call' and n.get('obj') is not None and not n.get('mc') and n.get('op') not in ('[]', '*', '->'):
            out.append(self.t.txt(n['obj']))
        if k in ('call', 'ctor'):
            for a, pt in zip(n.get('a') or [], n.get('pt') or []):
                if pt.get('ref') and not pt.get('const'):
                    out.append(self.t.txt(a))
                elif pt.get('ptr') and not (pt.get('pt') or {}).get('const'):
                    x = strip(a)
                    if x is not None and x.get('k') == 'un' and x['op'] == '&':
                        out.append(self.t.txt(x['c'][0]))
        return out

    def leaf(self, n, st):
        for t in self.written(n):
            if t:
                st = self.changed(n, t, st)
        return (st,)

    def changed(self, n, t, st):
        return self.kill(st, t)

    def declare(self, v, st):
        return (self.kill(st, 'v%s' % v['id']),)

    def loop_var(self, n, st):
        v = n.get('var') or {}
        return (self.kill(st, 'v%s' % v.get('id')),)

    def has(self, st, items, k):
        items = frozenset(items)
        return any(x[0] == 'le' and x[1] == items and x[2] <= k for x in st)


# -- rows --------------------------------------------------------------------
ROW, BELLS = 'ringing::row', 'data'


def outside_type(t, own):
    c = (t or {}).get('cls') or ((t or {}).get('pt') or {}).get('cls') or ''
    if c in own:
        return False
    if (t or {}).get('ptr'):
        return True
    return bool(c) and c.startswith(('std::', 'ringing::bell')) or bool(t.get('dep'))


def tainted(prog, f, own):
    out = {('p', p['id']) for p in f.params if outside_type(p['ty'], own)}

    def dirty(e):
        for x in walk(e):
            if x.get('k') == 'var' and ('p' if x.get('dk') == 'param' else 'l', x.get('id')) in out and x.get('dk') in ('param', 'local'):
                return True
            if x.get('k') == 'call' and (x.get('n') or '').startswith('read_') and x.get('rec') == 'ringing::bell':
                return True
        return False
    change = True
    while change:
        change = False
        for n in f.nodes():
            new = None
            if n.get('k') == 'decl':
                for v in n.get('c') or []:
                    if v.get('init') is not None and ('l', v['id']) not in out and not (v.get('ty') or {}).get('cls') in own and dirty(v['init']):
                        out.add(('l', v['id']))
                        change = True
            elif n.get('k') == 'rfor' and n.get('var') and dirty(n.get('range')):
                new = ('l', n['var']['id'])
            elif n.get('k') == 'bin' and n['op'] in ASSIGN and dirty(n['c'][1]):
                x = leafcore(n['c'][0])
                new = ('l', x['id']) if x is not None and x.get('k') == 'var' and x.get('dk') == 'local' else None
            elif n.get('k') == 'call' and n.get('obj') is not None and not n.get('mc') and any(dirty(a) for a in n.get('a') or []):
                x = leafcore(n['obj'])
                new = ('l', x['id']) if x is not None and x.get('k') == 'var' and x.get('dk') == 'local' and (x.get('ty') or {}).get('cls') not in own else None
            elif n.get('k') == 'call' and n.get('op') == '>>':
                l = n['obj'] if n.get('obj') is not None else n['a'][0]
                x = leafcore(n['a'][0] if n.get('obj') is not None else n['a'][1])
                if x is not None and x.get('k') == 'var' and x.get('dk') == 'local':
                    new = ('l', x['id'])
            if new and new not in out:
                out.add(new)
                change = True
    return out, dirty


class Checked(Flow):
    """State: line at which something from outside went among the bells unchecked, or 0."""
    def __init__(self, w, f):
        super().__init__(w.prog)
        self.w, self.f = w, f
        self.tn, self.dirty = tainted(w.prog, f, {ROW, 'ringing::change'})

    def data(self, n):
        """n is the bells of some row."""
        n = leafcore(n)
        for _ in range(6):
            if n is None:
                return False
            if n.get('k') == 'field':
                return n['n'] == BELLS and (n.get('rec') == ROW or (n.get('q') or '').startswith(ROW + '::'))
            if n.get('k') == 'call' and n.get('op') in ('[]', '*') and n.get('obj') is not None or n.get('k') == 'call' and n.get('n') in ('back', 'front', 'at', 'begin', 'end') and n.get('obj') is not None:
                n = leafcore(n['obj'])
                continue
            if n.get('k') == 'un' and n['op'] in ('*', '&'):
                n = leafcore(n['c'][0])
                continue
            return False
        return False

    def init(self, fn, i, S):
        S = self.ev(i.get('e'), S)
        if (i.get('field') or '').split('::')[-1] == BELLS and fn.cls == ROW and i.get('e') is not None and self.dirty(i['e']):
            return {self.f.at(i['e'])}
        return S

    def leaf(self, n, st):
        k = n.get('k')
        if k == 'call' and n.get('obj') is not None and n.get('op') in (None, '=') and not n.get('mc') and self.data(n['obj']) and (n.get('op') or n.get('n') in GROW):
            if any(self.dirty(a) for a in n.get('a') or []):
                return (self.f.at(n),)
        if k == 'call' and n.get('obj') is not None and n.get('n') in ('resize', 'erase', 'pop_back') and self.data(n['obj']):
            return (self.f.at(n),)
        if k == 'call' and n.get('n') == 'rounds' and n.get('rec') == ROW and not [a for a in n.get('a') or [] if not a.get('da')]:
            return (0,)
        if k == 'bin' and n['op'] in ASSIGN and self.data(n['c'][0]) and self.dirty(n['c'][1]):
            return (self.f.at(n),)
        if k == 'call' and n.get('fn'):
            u = n['fn']
            if u in self.w.checks:
                return (0,)
            t = self.prog.fn(u)
            if t is not None and t.cls == ROW and t.usr != self.f.usr:
                if u in self.w.always:
                    return (0,)
                if u in self.w.leaves:
                    return (self.f.at(n),)
            elif n.get('obj') is None or n.get('op') is None:
                a = list(n.get('a') or [])
                if any(self.data(x) or core(x) is not None and core(x).get('k') == 'call' and any(self.data(y) for y in core(x).get('a') or []) for x in a) and any(self.dirty(x) for x in a) and \
                        any(pt.get('ref') and not pt.get('const') for pt in n.get('pt') or []) or \
                        (n.get('q') or '').startswith('std::') and any(core(x) is not None and core(x).get('k') == 'call' and core(x).get('n') in ('back_inserter', 'begin') and (any(self.data(y) for y in core(x).get('a') or []) or not core(x).get('mc') and core(x).get('obj') is not None and self.data(core(x)['obj'])) for x in a) and any(self.dirty(x) for x in a):
                    return (self.f.at(n),)
        return (st,)

    def may_throw(self, n, st):
        if n.get('fn') in self.w.checks:
            return [ROW + '::invalid']
        return ()


class World:
    def __init__(self, prog):
        self.prog = prog
        self.checks, self.always, self.leaves = set(), set(), set()
        for f in prog.real_fns():
            if f.cls == ROW and f.body is not None and f.d.get('const') and not f.params and (f.d.get('ret') or {}).get('void') and any(n.get('k') == 'throw' for n in f.nodes()):
                self.checks.add(f.usr)


def members(prog):
    for f in prog.real_fns():
        if f.body is None or f.d.get('impl'):
            continue
        if f.cls == ROW or any(n.get('k') == 'field' and n['n'] == BELLS and (n.get('q') or '').startswith(ROW + '::') for n in f.nodes()):
            yield f


def check_rows(w, out):
    fs = [f for f in members(w.prog) if f.usr not in w.checks]
    res = {}
    for _ in range(3):
        for f in fs:
            try:
                x = Checked(w, f)
                X = x.run(f, {0})
            except Unsupported:
                res[f.usr] = (f, None, None)
                continue
            bad = sorted((str(s) for s in X.ret if s), key=repr)
            res[f.usr] = (f, bad, any(x.leaf(n, 0) != (0,) for n in f.nodes()) or any(i.get('e') is not None and x.dirty(i['e']) and (i.get('field') or '').split('::')[-1] == BELLS for i in f.inits))
            if bad:
                w.leaves.add(f.usr)
            else:
                w.leaves.discard(f.usr)
            if not bad:
                y = Checked(w, f)
                try:
                    if y.run(f, {'in'}).ret <= {0}:
                        w.always.add(f.usr)
                except Unsupported:
                    pass
    for u, (f, bad, takes) in sorted(res.items()):
        if bad is None:
            out.append(('row', f.at(f.body), None, f.q, 'not followed'))
        elif bad and f.cls == ROW and f.d.get('acc', 0) not in (0, None):
            continue
        elif bad:
            out.append(('row', bad[0], False, f.q, '%s puts what it was given among the bells of a row, and returns without having it checked' % f.q))
        elif takes:
            out.append(('row', f.at(f.body), True, f.q, ''))


# -- the check itself ----------------------------------------------------------
class Body(Facts):
    def __init__(self, prog, f, elem):
        super().__init__(prog, f, {ROW})
        self.elem = elem
        self.t.same = {}

    def assume(self, n, truth, st):
        x = leafcore(n)
        m = self.mark(x)
        if m is not None:
            if ('marked', m) in st:
                return (st,)
            return (st | {('tested', m, truth)},)
        if x is not None and x.get('k') == 'call' and x.get('op') in NEG or x is not None and x.get('k') == 'bin' and x['op'] in ('==', '!='):
            ab = x['c'] if x.get('k') == 'bin' else ([x['obj']] + list(x['a']) if x.get('obj') is not None else x['a'])
            for a, b in ((ab[0], ab[1]), (ab[1], ab[0])) if len(ab) == 2 else ():
                m, c = self.mark(leafcore(a)), self.const(b)
                if m is not None and c in (0, 1) and (x.get('op') in ('==', '!=')):
                    v = (c == 1) == (x['op'] == '==') if truth else (c == 1) != (x['op'] == '==')
                    return (st | {('tested', m, v)},)
        return super().assume(n, truth, st)

    def mark(self, n):
        """The local container that n looks up this element in."""
        if n is None or not (n.get('k') == 'call' and n.get('op') == '[]' and n.get('obj') is not None or n.get('k') == 'sub'):
            return None
        b, i = (n['obj'], n['a'][0]) if n.get('k') == 'call' else n['c']
        b = leafcore(b)
        if b is not None and b.get('k') == 'var' and b.get('dk') == 'local' and self.t.txt(i) == self.elem:
            return b['id']
        return None

    def leaf(self, n, st):
        k = n.get('k')
        l = r = None
        if k == 'bin' and n['op'] == '=':
            l, r = n['c']
        elif k == 'call' and n.get('op') == '=' and n.get('obj') is not None:
            l, r = n['obj'], n['a'][0]
        elif k == 'un' and n['op'] in ('pre++', 'post++'):
            l = n['c'][0]
        if l is not None:
            m = self.mark(leafcore(l))
            if m is not None:
                if r is None or self.const(r):
                    return (st | {('marked', m)},)
                return (st,)
        return super().leaf(n, st)


def check_check(w, out):
    prog = w.prog
    for u in sorted(w.checks):
        f = prog.fn(u)
        t = Terms(prog, f, {ROW})
        size = '#this.' + BELLS
        found = {'range': None, 'twice': None}
        loops = cover = unknown = 0
        stop = None
        for n in f.nodes():
            k = n.get('k')
            if k in ('while', 'do'):
                unknown += 1
                continue
            if k not in ('for', 'rfor'):
                if k == 'call' and (n.get('q') or '').startswith('std::') and n.get('n') in ('sort', 'count', 'find', 'unique', 'is_permutation', 'all_of', 'any_of', 'adjacent_find', 'insert', 'max_element', 'for_each', 'accumulate'):
                    unknown += 1
                if k in ('call', 'ctor') and n.get('k') == 'call':
                    g = prog.fn(n.get('fn')) if n.get('fn') else None
                    if g is not None and g.body is not None and (g.q or '').startswith('ringing::') and (any(BELLS in (t.txt(a) or '') for a in n.get('a') or []) or g.cls == ROW and g.n not in ('bells', 'print') and not g.n.startswith('operator')):
                        unknown += 1
                continue
            touches = any(x.get('k') == 'field' and x['n'] == BELLS for x in walk(n))
            if not touches:
                continue
            loops += 1
            elem = None
            if k == 'rfor':
                if t.txt(n.get('range')) == 'this.' + BELLS:
                    elem = 'v%s' % n['var']['id']
            else:
                ds = (n.get('init') or {}).get('c') or []
                ok = False
                if len(ds) in (1, 2) and ds[0].get('init') is not None and n.get('cond') is not None:
                    v = 'v%s' % ds[0]['id']
                    i0 = leafcore(ds[0]['init'])
                    inc = leafcore(n.get('inc'))
                    one = inc is not None and (inc.get('k') == 'un' and inc['op'] in ('pre++', 'post++') or inc.get('k') == 'call' and inc.get('op') == '++')
                    c = leafcore(n['cond'])
                    ab = None
                    if c is not None and c.get('k') == 'bin':
                        ab, op = c['c'], c['op']
                    elif c is not None and c.get('k') == 'call' and c.get('op') in ('!=', '<'):
                        ab, op = ([c['obj']] + list(c['a'])) if c.get('obj') is not None else list(c['a']), c['op']
                    if i0 is not None and t.lin(i0) == ({}, 0) and one and ab and op in ('<', '!='):
                        l, r = t.lin(ab[0]), t.lin(ab[1])
                        ok = l == ({v: 1}, 0) and r == ({size: 1}, 0)
                        elem = 'this.%s[%s]' % (BELLS, v) if ok else None
                    elif i0 is not None and i0.get('k') == 'call' and i0.get('n') in ('begin', 'cbegin') and one and ab and op == '!=':
                        e = leafcore(ab[1])
                        if e is not None and e.get('k') == 'var' and len(ds) == 2 and e.get('id') == ds[1]['id']:
                            e = leafcore(ds[1].get('init'))
                        ok = e is not None and e.get('n') in ('end', 'cend') and t.txt(i0) in ('this.%s.begin()' % BELLS, 'this.begin()', 'this.%s.cbegin()' % BELLS)
                        elem = '*' + v if ok else None
                    elif not (i0 is not None and t.lin(i0) is not None):
                        unknown += 1
            if elem is None:
                continue
            b = Body(prog, f, elem)
            # an element may be given a name
            for v in b.t.consts.values():
                if leafcore(v['init']) is not None and t.txt(v['init']) == elem and b.t.txt({'k': 'var', 'dk': 'local', 'id': v['id'], 'ty': v.get('ty') or {}}) != elem:
                    b.t.consts[v['id']] = dict(v)
                    vid = v['id']
                    old = b.t.txt
                    b.t.txt = (lambda old, vid: lambda n, d=0: elem if leafcore(n) is not None and leafcore(n).get('k') == 'var' and leafcore(n).get('id') == vid and leafcore(n).get('dk') == 'local' else old(n, d))(old, vid)
            from ..flow import Exits
            b.x = Exits()
            try:
                S = b._scoped([n.get('b')], {frozenset()}) | b.x.cont
            except Unsupported:
                unknown += 1
                continue
            cover += 1
            if b.x.brk or b.x.ret:
                stop = f.at(n)
            size_items = frozenset([(elem, 1), (size, -1)])
            rng = [st for st in S if not b.has(st, size_items, -1)]
            dup = [st for st in S if not any(x[0] == 'tested' and x[2] is False and ('marked', x[1]) in st for x in st)]
            if not rng:
                found['range'] = True
            if not dup:
                found['twice'] = True
        for what, msg in (('range', 'does not refuse every bell beyond the end of the row'), ('twice', 'does not refuse every bell that the row has already')):
            if found[what] and not stop:
                out.append(('check', f.at(f.body), True, '%s|%s' % (f.q, what), ''))
            elif stop:
                out.append(('check', stop, None if unknown else False, '%s|%s' % (f.q, what), '%s stops before it has looked at every bell' % f.q))
            else:
                out.append(('check', f.at(f.body), None if unknown or not loops else False, '%s|%s' % (f.q, what), '%s, with which rows are checked, %s' % (f.q, msg)))


# -- changes -------------------------------------------------------------------
class Places(Facts):
    """What comes from outside goes into a change only within its bounds."""
    def __init__(self, prog, f):
        super().__init__(prog, f, {'ringing::change', ROW})
        self.tn, self.dirty = tainted(prog, f, {'ringing::change', ROW})
        self.uses = {}
        self.asked = {}

    def swaps(self, n):
        n = leafcore(n)
        if n is None:
            return False
        if n.get('k') == 'field':
            return n['n'] == 'swaps' and (n.get('q') or '').startswith('ringing::change::') and leafcore(n['b']) is not None and leafcore(n['b']).get('k') == 'this'
        if n.get('k') == 'call' and n.get('op') in ('[]', '*') and n.get('obj') is not None:
            o = leafcore(n['obj'])
            return self.swaps(o) or o is not None and o.get('k') == 'var' and 'iterator' in ((o.get('ty') or {}).get('cls') or (o.get('ty') or {}).get('s') or '') and o.get('dk') == 'local'
        if n.get('k') == 'call' and n.get('op') == '++' and n.get('obj') is not None:
            return self.swaps(n['obj'])
        return False

    def note(self, n, what, ok, st=frozenset(), v=None):
        if not ok and v is not None and any(x[0] == 'asked' and x[1] in v[0] for x in st):
            ok = None
        self.uses.setdefault((self.f.at(n), what), []).append(ok)

    def lower(self, st, v, b):
        """b - v <= 0."""
        s = Counter(b[0])
        for t, c in v[0].items():
            s[t] -= c
        items = frozenset((t, c) for t, c in s.items() if c)
        return not items or self.has(st, items, v[1] - b[1]) or b[0] and all(('zero', t) in st for t in b[0]) or \
            bool(b[0]) and self.has(st, b[0].items(), -b[1])

    def leaf(self, n, st):
        k = n.get('k')
        n_ = ({'this.n': 1}, 0)
        if k == 'call' and n.get('fn'):
            a = list(n.get('a') or [])
            if any(self.swaps(x) for x in a) and n.get('obj') is None:
                t = self.prog.fn(n['fn'])
                refs, vals = [], []
                for x, pt in zip(a, n.get('pt') or []):
                    if self.swaps(x):
                        continue
                    (refs if pt.get('ref') and not pt.get('const') else vals).append(x)
                for v in vals:
                    if not self.dirty(v):
                        continue
                    l = self.t.lin(v)
                    if l is None:
                        self.note(n, 'above', None)
                        continue
                    self.note(n, 'above', self.bound(st, l, n_, -1), st, l)
                    for b in refs:
                        bl = self.t.lin(b)
                        if bl is None:
                            continue
                        self.note(n, 'below', self.lower(st, l, bl), st, l)
                        d = Counter(l[0])
                        for t2, c in bl[0].items():
                            d[t2] -= c
                        items = frozenset((t2, c % 2) for t2, c in d.items() if c % 2)
                        zero = all(self.zero(st, t2) for t2 in bl[0])
                        self.note(n, 'odd', ('par', items, False) in st or zero and ('par', frozenset((t2, c % 2) for t2, c in l[0].items()), False) in st or
                                  any(x[0] == 'parfix' and set(x[1]) & set(l[0]) for x in st), st, l)
        if k == 'call' and n.get('obj') is not None and not n.get('mc') and n.get('op') is None and n.get('n') in GROW and self.swaps(n['obj']):
            for v in n.get('a') or []:
                if self.dirty(v) and (leafcore(v) is not None) and self.t.lin(v) is not None and 'iterator' not in ((leafcore(v).get('ty') or {}).get('s') or ''):
                    self.note(n, 'pair', self.bound(st, self.t.lin(v), n_, -2), st, self.t.lin(v))
        l = r = None
        if k == 'bin' and n['op'] == '=':
            l, r = n['c']
        elif k == 'call' and n.get('op') == '=' and n.get('obj') is not None:
            l, r = n['obj'], n['a'][0]
        if l is not None and self.swaps(l) and self.dirty(r) and self.t.lin(r) is not None:
            self.note(n, 'pair', self.bound(st, self.t.lin(r), n_, -2), st, self.t.lin(r))
        if k == 'call' and n.get('fn') and not any(self.swaps(x) for x in n.get('a') or []) and not n.get('op'):
            t = self.prog.fn(n['fn'])
            if t is not None and t.body is not None and t.cls != 'ringing::bell' and self.inlined(n) is None:
                for v in n.get('a') or []:
                    l = self.t.lin(v) if self.dirty(v) else None
                    for t2 in (l[0] if l else ()):
                        st = st | {('asked', t2)}
        return super().leaf(n, st)

    def zero(self, st, t):
        return any(x[0] == 'le' and x[1] == frozenset([(t, 1)]) and x[2] <= 0 for x in st)

    def bound(self, st, l, n, k):
        s = Counter(l[0])
        s['this.n'] -= 1
        items = frozenset((t, c) for t, c in s.items() if c)
        return self.has(st, items, k - l[1])

    def changed(self, n, t, st):
        fix = set()
        r = None
        if n.get('k') == 'bin' and n['op'] == '=':
            r = self.const(n['c'][1])
        elif n.get('k') == 'call' and n.get('op') == '=' and n.get('a'):
            r = self.const(n['a'][0])
        elif n.get('k') == 'un' and 'pre++' == n['op'] or n.get('k') == 'call' and n.get('op') == '++':
            r = 1
        zero = self.zero(st, t)
        for x in st:
            if x[0] == 'par' and (any(s == t for s, _ in x[1]) or len(x[1]) == 1) and x[2] is True and zero and r == 1:
                fix.add(('parfix', tuple(sorted(s for s, _ in x[1] if s != t))))
                # nothing below it: the place is odd, so at least one
                for s, _ in x[1]:
                    if s != t:
                        fix.add(('le', frozenset([(t, 1), (s, -1)]), 0))
        return self.kill(st, t) | fix

    def kill(self, st, t):
        st = super().kill(st, t)
        return frozenset(x for x in st if not (x[0] == 'parfix' and t in x[1] or x[0] == 'asked' and x[1] == t))


# -- bells ---------------------------------------------------------------------
class Text(Facts):
    """Numbers and characters become bells only if they are bells."""
    def __init__(self, prog, f):
        super().__init__(prog, f, {ROW})
        self.uses = {}
        self.member = {}                    # local that holds what strchr gave -> text of the character
        self.out = set()
        for n in f.nodes():
            if n.get('k') == 'decl':
                for v in n.get('c') or []:
                    e = leafcore(v['init']) if v.get('init') is not None else None
                    if e is not None and e.get('k') == 'call' and e.get('n') in ('strtoul', 'strtol', 'strtoull', 'atoi', 'stoi', 'stoul'):
                        self.out.add(v['id'])
            if n.get('k') == 'call' and n.get('op') == '>>':
                x = leafcore(n['a'][0] if n.get('obj') is not None else n['a'][-1])
                if x is not None and x.get('k') == 'var' and x.get('dk') == 'local' and (x.get('ty') or {}).get('int'):
                    self.out.add(x['id'])

    def note(self, n, what, ok):
        self.uses.setdefault((self.f.at(n), what), []).append(ok)

    def number(self, n):
        """(lin, var) if n is a number from outside, in linear form."""
        l = self.t.lin(n)
        if l is None or len(l[0]) != 1:
            return None
        t, c = next(iter(l[0].items()))
        return (l, t) if c == 1 and t in {'v%s' % i for i in self.out} else None

    def leaf(self, n, st):
        k = n.get('k')
        if k == 'ctor' and n.get('q') == 'ringing::bell':
            a = [x for x in n.get('a') or [] if not x.get('da')]
            m = self.number(a[0]) if len(a) == 1 and (n.get('pt') or [{}])[0].get('int') else None
            if m:
                l, t = m
                self.note(n, 'least', self.has(st, {(t, -1)}, l[1]) or l[1] == -1 and ('nz', t, 0) in st)
                self.note(n, 'brace', ('brace',) in st)
                self.note(n, 'most', self.has(st, {(t, 1)}, 255 - l[1]))
        return super().leaf(n, st)

    def found(self, n):
        n = leafcore(n)
        if n is None:
            return None
        if n.get('k') == 'bin' and n['op'] == '=':
            return self.found(n['c'][1])
        if n.get('k') == 'var' and n.get('dk') == 'local' and n.get('id') in self.t.consts:
            return self.found(self.t.consts[n['id']]['init'])
        if n.get('k') == 'call' and n.get('n') == 'strchr' and len(n.get('a') or []) == 2 and self.const(n['a'][1]) is None:
            return self.t.txt(n['a'][1])
        return None

    def assume(self, n, truth, st):
        x = leafcore(n)
        c = self.found(x)
        if c is None and x is not None and x.get('k') == 'bin' and x['op'] in ('==', '!='):
            for a, b in ((x['c'][0], x['c'][1]), (x['c'][1], x['c'][0])):
                if self.found(a) is not None and (leafcore(b) or {}).get('k') in ('null', 'int', 'nullptr'):
                    c = self.found(a)
                    truth = truth == (x['op'] == '!=')
        if c is not None:
            if truth:
                return (st | {('found', c)},)
            return (st | {('miss', c)},)
        return super().assume(n, truth, st)

    def compare(self, a, op, b, st):
        if op == '==' and 125 in (self.const(a), self.const(b)):
            st = st | {('brace',)}
        return super().compare(a, op, b, st)

    def judge(self, n, st):
        for x in st:
            if x[0] == 'found':
                held = {'*v%s' % i for i, v in self.t.consts.items() if self.found(v['init']) == x[1]}
                if any(y[0] == 'le' and y[1] == frozenset([(h, 1)]) and y[2] <= 0 for y in st for h in held):
                    continue
                self.note(n, 'nul', any(('nz', h, 0) in st for h in held) or ('nz', x[1], 0) in st or any(y[0] == 'le' and y[1] == frozenset([(x[1], -1)]) and y[2] <= -1 for y in st))

    def on_return(self, n, st):
        self.judge(n, st)
        if (self.f.d.get('ret') or {}).get('cls') == 'ringing::bell' and any(x[0] == 'miss' for x in st) and not any(x[0] == 'found' for x in st):
            e = n.get('e')
            self.note(n, 'unknown', any(x.get('k') == 'call' and (x.get('n') or '').startswith('read_') for x in walk(e)) if e is not None else None)
        return (st,)

    def kill(self, st, t):
        # what was found stays found
        keep = {x for x in st if x[0] == 'found' and x[1] == t}
        return super().kill(st, t) | keep


class Peek(Flow):
    """State: whether the stream may be at its end because of a peek that has told so."""
    def __init__(self, prog, f):
        super().__init__(prog)
        self.f = f
        self.uses = {}
        self.params = {p['id'] for p in f.params if p['ty'].get('ref') and 'istream' in (p['ty'].get('cls') or p['ty'].get('s') or '')}

    def stream(self, n):
        n = leafcore(n)
        return n is not None and n.get('k') == 'var' and n.get('dk') == 'param' and n.get('id') in self.params

    def leaf(self, n, st):
        if n.get('k') == 'call' and n.get('obj') is not None and self.stream(n['obj']):
            if n.get('n') == 'peek':
                self.uses.setdefault(self.f.at(n), []).append(st != 'maybe')
                return ('maybe',)
            if n.get('n') in ('get', 'clear', 'ignore', 'unget', 'putback', 'getline', 'read'):
                return ('none',)
        if n.get('k') == 'call' and n.get('op') == '>>':
            return ('none',)
        return (st,)

    def assume(self, n, truth, st):
        if st != 'maybe':
            return (st,)
        x = leafcore(n)
        if x is None:
            return (st,)
        asks = any(y.get('k') == 'call' and y.get('n') == 'peek' for y in walk(x)) or any(y.get('k') == 'var' and y.get('dk') == 'local' and (y.get('ty') or {}).get('int') for y in walk(x))
        if not asks:
            if any(self.stream(y) for y in walk(x)) and not truth:
                return ('none',)
            return (st,)
        if x.get('k') == 'bin' and x['op'] in ('==', '!=') and any((leafcore(y) or {}).get('k') == 'chr' for y in x['c']):
            return ('none',) if truth == (x['op'] == '==') else (st,)
        if x.get('k') == 'bin' and x['op'] in ('==', '!=') :
            return ('none',)
        return ('none',) if truth else (st,)


SAY = {'brace': 'makes a bell of a number from outside without having refused one that is not closed',
       'unknown': 'gives a bell for a character that is not a bell symbol',
       'above': 'uses a place from outside without having refused one beyond the number of bells',
       'below': 'uses a place from outside without having refused one below the place before it',
       'odd': 'uses a place from outside without having refused one that leaves a bell without a partner',
       'pair': 'swaps a pair from outside without having refused one beyond the number of bells',
       'least': 'makes a bell of a number from outside without having refused those below 1',
       'most': 'makes a bell of a number from outside without having refused those beyond what a bell can be',
       'nul': 'takes a NUL character for a bell symbol, because it finds it at the end of the symbols'}


def check(prop):
    ck = Check(prop, 'what comes from outside and becomes part of a row, a change or a bell: checked on every path, by a check that looks at everything', [])
    prog = load('lib')
    w = World(prog)
    out = []
    check_rows(w, out)
    check_check(w, out)
    for f in prog.real_fns():
        if f.body is None or f.d.get('impl'):
            continue
        for kind, cls, on in (('change', Places, f.cls == 'ringing::change'),
                              ('bell', Text, f.cls == 'ringing::bell' or (f.d.get('op') == '>>' or f.n == 'operator>>') and any((p['ty'].get('cls') or '') == 'ringing::bell' for p in f.params))):
            if not on:
                continue
            x = cls(prog, f)
            try:
                X = x.run(f, {frozenset()})
            except Unsupported:
                out.append((kind, f.at(f.body), None, f.q, 'not followed'))
                continue
            if kind == 'bell':
                for st in x.falls:
                    x.judge(f.body, st)
            for (at, what), oks in sorted(x.uses.items()):
                bad = False if any(o is False for o in oks) else None if any(o is None for o in oks) else True
                out.append((kind, at, bad, '%s|%s' % (f.q, what), '%s %s' % (f.q, SAY[what])))
            ck.count('functions')
        if f.n == 'operator>>' or f.d.get('op') == '>>':
            x = Peek(prog, f)
            if not x.params:
                continue
            try:
                x.run(f, {'none'})
            except Unsupported:
                continue
            for at, oks in sorted(x.uses.items()):
                out.append(('end', at, all(oks), f.q, '%s peeks again where the stream may have ended, which makes what it has read count as failed' % f.q))
    seen = {}
    for clause, at, ok, k, msg in out:
        if (clause, k, at) in seen and seen[(clause, k, at)][0] is False:
            continue
        seen[(clause, k, at)] = (ok, msg)
    for (clause, k, at), (ok, msg) in sorted(seen.items(), key=repr):
        ck.obligation(clause, at, ok, key=k, msg=msg)
    ck.floor('row', 3)
    ck.floor('check', 1)
    return ck.finish()

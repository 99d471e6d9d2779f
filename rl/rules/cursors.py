"""A cursor that a function itself compares with the end of its range is read
and advanced only where that comparison has been made since it last moved."""
from ..flow import Flow, Unsupported
from ..ir import walk, load, apps, REPO
from ..expr import strip, ASSIGN, const_locals, lvroot, writes
from ..report import Check

FLIP = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}
REL = {'<', '<=', '>', '>=', '==', '!='}
FINDERS = {'find', 'find_if', 'find_first_of', 'search', 'lower_bound', 'upper_bound', 'adjacent_find', 'find_if_not', 'mismatch', 'remove', 'remove_if', 'partition', 'unique'}


def iscur(t):
    t = t or {}
    s = t.get('s') or ''
    if 'ostream' in s or 'istream_iterator' in s or 'insert_iterator' in s:
        return False
    return bool(t.get('ptr')) and not t.get('fnptr') or 'iterator' in s and not s.rstrip('& ').endswith('*')


def keyof(n):
    n = strip(n)
    if n.get('k') == 'var' and n.get('dk') in ('local', 'param') and iscur(n.get('ty')):
        return ('v', n['id'])
    if n.get('k') == 'field' and strip(n['b']).get('k') == 'this' and iscur(n.get('ty')):
        return ('f', n['n'])
    return None


def opcall(n):
    """operator, operands of an operator written either way"""
    if n.get('k') == 'bin':
        return n['op'], n['c']
    if n.get('k') == 'un':
        return n['op'], n['c']
    if n.get('k') == 'call' and n.get('op'):
        ops = ([n['obj']] if n.get('obj') is not None else []) + list(n.get('a') or [])
        op = n['op']
        if op in ('++', '--'):
            op = ('post' if len(ops) == 2 else 'pre') + op
            ops = ops[:1]
        return op, ops
    return None, []


def base(t):
    s = (t or {}).get('s') or ''
    return s.replace('const ', '').replace(' const', '').replace('&', '').strip()


def out(t):
    """A pointer to write through."""
    s = (t or {}).get('s') or ''
    return bool((t or {}).get('ptr')) and not s.startswith('const ')


def whole(n):
    n = strip(n)
    while n.get('k') == 'ctor' and len(n.get('a') or []) == 1:
        n = strip(n['a'][0])
    return n


def isend(n):
    n = strip(n)
    return n.get('k') == 'call' and n.get('n') in ('end', 'cend', 'rend')


def get(st, k):
    for a, b in st:
        if a == k:
            return b
    return 'other'


def put(st, k, v):
    return frozenset(x for x in st if x[0] != k) | ({(k, v)} if v != 'other' else frozenset())


def step(v, c):
    """What moving c places on makes of a cursor."""
    if v == 'many':
        return v
    if v[0] == 'ok' and v[2] > c:
        return ('ok', v[1], v[2] - c)
    return 'moved' if c > 0 else v


def ahead(n):
    """(cursor, distance) of an expression like i + 2."""
    n = strip(n)
    k = keyof(n)
    if k:
        return k, 0
    op, ops = opcall(n)
    if op in ('=', 'pre++', 'pre--') and ops and keyof(ops[0]):
        return keyof(ops[0]), 0
    if op == '+' and len(ops) == 2 and keyof(ops[0]) and strip(ops[1]).get('k') == 'int':
        return keyof(ops[0]), strip(ops[1])['v']
    if n.get('k') == 'call' and n.get('n') == 'next' and len(n.get('a') or []) in (1, 2) and keyof(n['a'][0]):
        d = strip(n['a'][1]) if len(n['a']) == 2 else {'k': 'int', 'v': 1}
        if d.get('k') == 'int' or d.get('da'):
            return keyof(n['a'][0]), d.get('v', 1)
    if n.get('k') == 'ctor' and len(n.get('a') or []) == 1:
        return ahead(n['a'][0])
    return None, 0


class Cursors(Flow):
    MAX_STATES = 3000

    def __init__(self, w, fn, uses=None):
        super().__init__(w.prog)
        self.w, self.fn, self.uses = w, fn, uses
        self.cl = const_locals(w.prog, fn)
        self.judged = w.judged(fn)
        self.flags = w.flags(fn)
        self.need = {}

    # -- values --------------------------------------------------------------
    def value(self, n, st):
        n = strip(n)
        k = keyof(n)
        if k:
            return get(st, k)
        if n.get('k') == 'call' and n.get('n') in ('begin', 'cbegin', 'rbegin'):
            o = lvroot(n['obj']) if n.get('obj') is not None else None
            return 'begin' if o and o not in self.w.sized(self.fn) else 'other'
        if n.get('k') == 'call' and n.get('n') in FINDERS and iscur(n.get('ty')):
            o = lvroot(n['obj']) if n.get('obj') is not None else None
            return 'other' if o and o in self.w.counted(self.fn) else 'found'
        if isend(n):
            return 'end'
        op, ops = opcall(n)
        if op in ('pre++', 'post++', 'pre--', 'post--') and keyof(ops[0]):
            return get(st, keyof(ops[0])) if op.startswith('pre') else 'other'
        if op == '+' and len(ops) == 2 and keyof(ops[0]):
            v = get(st, keyof(ops[0]))
            c = strip(ops[1])
            return step(v, c['v']) if c.get('k') == 'int' else 'many' if v == 'many' else 'other'
        if op == '=' and len(ops) == 2:
            return self.value(ops[1], st)
        if n.get('k') == 'ctor' and len(n.get('a') or []) == 1:
            return self.value(n['a'][0], st)
        if n.get('k') == 'call' and n.get('n') == 'next' and n.get('a') and keyof(n['a'][0]):
            return step(get(st, keyof(n['a'][0])), 1)
        return 'other'

    # -- conditions ------------------------------------------------------------
    def assume(self, n, truth, st):
        r = self.facts(n, truth, st, 3)
        return () if r is None else (r,)

    def facts(self, n, truth, st, depth):
        n = strip(n)
        if n.get('k') == 'un' and n['op'] == '!':
            return self.facts(n['c'][0], not truth, st, depth)
        if n.get('k') == 'bin' and n['op'] in ('&&', '||'):
            if (n['op'] == '&&') == truth:
                for c in n['c']:
                    st = self.facts(c, truth, st, depth)
                    if st is None:
                        return None
            return st
        if n.get('k') == 'bin' and n['op'] in ASSIGN:
            return self.facts(n['c'][0], truth, st, depth)
        if n.get('k') == 'var' and n.get('dk') == 'local':
            v = get(st, ('b', n['id']))
            if v in ('T', 'F'):
                return st if (v == 'T') == truth else None
            if n['id'] in self.cl and depth:
                return self.facts(self.cl[n['id']]['init'], truth, st, depth - 1)
            # a flag: whatever it records is taken at its word
            for k in self.flag(n['id']):
                st = put(st, k, 'many')
            return st
        op, ops = opcall(n)
        if op in REL and len(ops) == 2:
            for a, b in (ops, ops[::-1]):
                k, d = ahead(a)
                b = strip(b)
                o = op if a is ops[0] else FLIP[op]
                eq = {'==': truth, '!=': not truth, '<': not truth, '>=': truth}.get(o)
                if k:
                    if b.get('k') in ('null', 'int', 'gnull', 'nullptr'):
                        return put(st, k, 'other')
                    v = get(st, k)
                    e = self.w.endlike(self.fn, k, b)
                    if v == 'many' or v == 'end' and k in self.w.ends(self.fn):
                        continue
                    if o in ('==', '!=') or o in ('<', '>=') and e:
                        if not eq:
                            if d and e and v[0] == 'ok' and v[1] == e and v[2] >= d:
                                st = put(st, k, ('ok', e, max(v[2], d + 1)))
                            elif d and v[0] != 'ok':
                                st = put(st, k, 'many' if e else v)
                            elif not d and (e or not keyof(b) and v != 'end' or v in ('moved', 'begin', 'found')):
                                if v[0] != 'ok' or v[1] != e:
                                    st = put(st, k, ('ok', e, 1))
                        elif e and v[0] == 'ok' and v[1] == e and v[2] > d:
                            return None     # there was more of it a moment ago
                        elif e and not d:
                            st = put(st, k, 'end')
                        elif e and d:
                            st = put(st, k, ('ok', e, d))
                    elif v != 'many':
                        st = put(st, k, ('ok', e, d + 1))
                else:
                    # a comparison of distances
                    for x in walk(a):
                        k = keyof(x)
                        if k and any(self.w.endlike(self.fn, k, z) for z in walk(a)) and not any(y.get('op') == '*' and y.get('k') in ('un', 'call') for y in walk(a)):
                            st = put(st, k, 'many')
            return st
        if n.get('k') == 'call':
            for a in list(n.get('a') or []) + ([n['obj']] if n.get('obj') is not None else []):
                k = keyof(a)
                if k:
                    st = put(st, k, get(st, k) if get(st, k) == 'many' or get(st, k)[0] == 'ok' else ('ok', None, 1))
        return st

    def flag(self, i):
        ks = set()
        for n in self.fn.nodes():
            es = []
            if n.get('k') == 'decl':
                es = [v['init'] for v in n.get('c', []) if v.get('id') == i and v.get('init') is not None]
            elif n.get('k') == 'bin' and n['op'] in ASSIGN and strip(n['c'][0]).get('id') == i:
                es = [n['c'][1]]
            for e in es:
                for x in walk(e):
                    op, ops = opcall(x)
                    if op in REL:
                        ks |= {keyof(o) for o in ops} - {None}
        return ks

    # -- effects -----------------------------------------------------------------
    def use(self, what, n, k, st):
        v = get(st, k)
        if v == 'entry':
            self.need[k] = n
        if k not in self.judged:
            return
        if self.uses is not None:
            r = self.uses.setdefault((what, id(n)), [self.fn, n, k, set()])
            r[3].add(v if isinstance(v, str) else v[0])

    def declare(self, v, st):
        if iscur(v.get('ty')) and v.get('init') is not None:
            return (put(st, ('v', v['id']), self.value(v['init'], st)),)
        if (v.get('ty') or {}).get('b') and v.get('init') is not None and not v.get('ty').get('ref'):
            return self.split(v['id'], v['init'], st)
        return (st,)

    def split(self, i, e, st):
        """A flag is set: from here on the path knows what it recorded."""
        e = strip(e)
        if i not in self.flags:
            return (st,)
        if e.get('k') == 'bool':
            return (put(st, ('b', i), 'T' if e['v'] else 'F'),)
        r = []
        for t in (True, False):
            s = self.facts(e, t, st, 3)
            if s is not None:
                r.append(put(s, ('b', i), 'T' if t else 'F'))
        return r

    def init(self, fn, i, S):
        S = self.ev(i.get('e'), S) if i.get('e') else S
        if i.get('field') and i.get('e') and iscur(strip(i['e']).get('ty')):
            S = {put(s, ('f', i['field']), self.value(i['e'], s)) for s in S}
        return S

    def leaf(self, n, st):
        k = n.get('k')
        op, ops = opcall(n)
        if op in ('*', '->') and len(ops) == 1 or k == 'idx' or k == 'field' and n.get('arrow'):
            b = ops[0] if ops else n['c'][0] if k == 'idx' else n['b']
            key, d = ahead(b)
            if k == 'idx':
                x = strip(n['c'][1])
                if x.get('k') != 'int':
                    return (st,)
                d += x['v']
            if key:
                v = get(st, key)
                if d and v != 'many' and v[0] == 'ok' and v[2] <= d and v[1]:
                    self.use('reads %d beyond' % d, n, key, put(st, key, 'moved'))
                elif not d:
                    self.use('reads', n, key, st)
            return (st,)
        if op in ('pre++', 'post++') and ops:
            key = keyof(ops[0])
            if key:
                self.use('advances', n, key, st)
                v = get(st, key)
                return (put(st, key, step(v, 1)),)
            return (st,)
        if op in ASSIGN or op in ('pre--', 'post--'):
            key = keyof(ops[0]) if ops else None
            if key:             # a range that got shorter
                st = frozenset((a, 'other' if b[0] == 'ok' and b[1] == key else b) for a, b in st)
        if op in ('pre--', 'post--') and ops:
            key = keyof(ops[0])
            if key:
                return (put(st, key, ('ok', None, 1) if op == 'pre--' else 'other'),)
            return (st,)
        if op == '=' and len(ops) == 2:
            key = keyof(ops[0])
            if key:
                return (put(st, key, self.value(ops[1], st)),)
            b = strip(ops[0])
            if b.get('k') == 'var' and b.get('dk') == 'local' and b['id'] in self.flags:
                return self.split(b['id'], ops[1], st)
        elif op in ASSIGN and len(ops) == 2:
            key = keyof(ops[0])
            if key:
                v = get(st, key)
                return (put(st, key, v if v == 'many' else 'other'),)
        if k == 'un' and op == '&':
            key = keyof(ops[0])
            if key:
                return (put(st, key, 'other'),)
        if k in ('call', 'ctor'):
            ts = self.prog.targets(n) if k == 'call' else [t for t in [self.prog.fn(n.get('fn')) if n.get('fn') else None] if t is not None]
            ts = [t for t in ts if t.body is not None]
            args = n.get('a') or []
            for i, a in enumerate(args):
                key, d = ahead(a)
                if not key or op in REL:
                    continue
                if d:
                    v = self.value(a, st)
                    for t in ts:
                        if i < len(t.params) and ('v', t.params[i].get('id')) in self.w.summary(t)[0]:
                            self.use('hands %s' % t.n, n, key, put(st, key, v))
                    continue
                for t in ts:
                    if i < len(t.params):
                        need, ex = self.w.summary(t)
                        pk = ('v', t.params[i].get('id'))
                        if pk in need:
                            self.use('hands %s' % t.n, n, key, st)
            for r in writes(self.prog, n):
                if r and r[0] == 'v':
                    key = ('v', r[2])
                    if get(st, key) != 'other' and len(ts) == 1:
                        for i, a in enumerate(args):
                            if keyof(a) == key and i < len(ts[0].params):
                                ex = self.w.summary(ts[0])[1]
                                st = put(st, key, ex.get(('v', ts[0].params[i].get('id')), 'other') if get(st, key) != 'many' else 'many')
                    else:
                        st = put(st, key, 'other')
                elif r and r[0] == 'f':
                    st = put(st, ('f', r[1]), 'other')
            if len(ts) == 1 and not op:
                self.w.summary(ts[0])
                for i, g in self.w.ens.get(ts[0].usr, {}).items():
                    key = keyof(args[i]) if i < len(args) else None
                    if key and g == 'many':
                        st = put(st, key, 'many')
                    elif key and g[0] < len(args) and keyof(args[g[0]]):
                        st = put(st, key, ('ok', keyof(args[g[0]]), g[1]))
            if k == 'call' and (n.get('obj') is None or strip(n['obj']).get('k') == 'this') and not n.get('mc'):
                st = frozenset(x for x in st if x[0][0] != 'f')
        return (st,)


class World:
    def __init__(self, prog):
        self.prog = prog
        self.sz, self.fx = {}, {}
        self.sum = {}
        self.jd = {}
        self.en = {}
        self.fg = {}
        self.ens = {}

    def sized(self, fn):
        """Containers whose emptiness the function looks at."""
        r = self.sz.get(fn.usr)
        if r is None:
            r = self.sz[fn.usr] = {lvroot(n['obj']) for n in fn.nodes() if n.get('k') == 'call' and n.get('n') in ('empty', 'size', 'length') and n.get('obj') is not None}
        return r

    def counted(self, fn):
        """Containers the function asks about some other way."""
        return {lvroot(n['obj']) for n in fn.nodes() if n.get('k') == 'call' and n.get('n') in ('count', 'contains') and n.get('obj') is not None}

    def fixed(self, fn):
        """(keys the function never changes, initialisers of locals)"""
        r = self.fx.get(fn.usr)
        if r is None:
            mod, ini = set(), {}
            for n in fn.nodes():
                if n.get('k') == 'decl':
                    for v in n.get('c', []):
                        ini[v.get('id')] = v.get('init')
                for x in writes(self.prog, n):
                    mod.add(('v', x[2]) if x[0] == 'v' else x)
            r = self.fx[fn.usr] = (mod, ini)
        return r

    def endlike(self, fn, k, b):
        """What b is called if it is the end of what cursor k runs over."""
        b = strip(b)
        if isend(b):
            return 'end()'
        kb = keyof(b)
        mod, ini = self.fixed(fn)
        if not kb or kb == k:
            return None
        if kb in mod:
            return kb if self.always_end(fn, kb) or (k, kb) in self.pairs(fn) else None
        if kb[0] == 'f':
            return kb
        i = ini.get(kb[1])
        if i is None and kb[1] in ini:
            return None
        if i is None:       # a parameter
            return kb if k in mod or k[1] in ini or (k, kb) in self.pairs(fn) else None
        i = strip(i)
        while i.get('k') == 'ctor' and len(i.get('a') or []) == 1:
            i = strip(i['a'][0])
        if isend(i):
            return kb
        if i.get('k') == 'field' and i.get('n') in ('second', 'last', 'end', 'finish'):
            return kb
        return None

    def pairs(self, fn):
        return {(('v', p['id']), ('v', q['id'])) for p, q in zip(fn.params, fn.params[1:])
                if iscur(p['ty']) and iscur(q['ty']) and base(p['ty']) == base(q['ty']) and not out(p['ty']) and p.get('id') is not None
                and q.get('id') is not None and self.stays(fn, ('v', q['id']))}

    def stays(self, fn, k):
        """k never moves on by itself (it may be set, or drawn back)."""
        if k not in self.fixed(fn)[0]:
            return True
        for n in fn.nodes():
            op, ops = opcall(n)
            if op in ('pre++', 'post++', '+=') and ops and keyof(ops[0]) == k:
                return False
            if op not in ASSIGN and op not in ('pre--', 'post--') and n.get('k') in ('call', 'ctor', 'un') and any(x == ('v', 'param', k[1]) for x in writes(self.prog, n)):
                return False
        return True

    def always_end(self, fn, kb):
        """Whatever the function sets kb to is an end."""
        vs = []
        for n in fn.nodes():
            op, ops = opcall(n)
            if op == '=' and len(ops) == 2 and keyof(ops[0]) == kb:
                vs.append(isend(whole(ops[1])))
            elif op in ('pre++', 'post++', 'pre--', 'post--') and keyof(ops[0]) == kb:
                return False
            elif op in ASSIGN and op != '=' and keyof(ops[0]) == kb:
                return False
        return bool(vs) and all(vs)

    def judged(self, fn):
        """Cursors the function compares with their end."""
        r = self.jd.get(fn.usr)
        if r is None:
            r = set()
            for n in fn.nodes():
                op, ops = opcall(n)
                if op in REL and len(ops) == 2:
                    for a, b in (ops, ops[::-1]):
                        k = keyof(a)
                        if k and self.endlike(fn, k, b):
                            r.add(k)
            # a range handed over as its two ends
            r |= {k for k, _ in self.pairs(fn)}
            mod, ini = self.fixed(fn)
            for i, e in ini.items():
                e = whole(e) if e is not None else None
                if e is not None and (e.get('k') == 'call' and (e.get('n') in ('begin', 'cbegin', 'rbegin') or e.get('n') in FINDERS) and iscur(e.get('ty'))):
                    r.add(('v', i))
                elif e is not None and isend(e) and iscur(e.get('ty')):
                    r.add(('v', i))
            for n in fn.nodes():
                op, ops = opcall(n)
                if op == '=' and len(ops) == 2:
                    e = whole(ops[1])
                    k = keyof(ops[0])
                    if k and e.get('k') == 'call' and (e.get('n') in ('begin', 'cbegin', 'rbegin', 'end', 'cend', 'rend') or e.get('n') in FINDERS) and iscur(e.get('ty')):
                        r.add(k)
            for _ in range(3):
                for i, e in ini.items():
                    k = keyof(whole(e)) if e is not None else None
                    if k in r:
                        r.add(('v', i))
            # the end of a range is no place in it
            r |= self.ends(fn)
            self.jd[fn.usr] = r
        return r

    def flags(self, fn):
        """Boolean locals only ever set by plain assignment, if there are few."""
        r = self.fg.get(fn.usr)
        if r is None:
            r = {v['id'] for n in fn.nodes() if n.get('k') == 'decl' for v in n.get('c', []) if (v.get('ty') or {}).get('b') and not v['ty'].get('ref')}
            for n in fn.nodes():
                if n.get('k') == 'bin' and n['op'] in ASSIGN and n['op'] != '=' or n.get('k') in ('call', 'ctor', 'un', 'lambda'):
                    r -= {x[2] for x in writes(self.prog, n) if x and x[0] == 'v'}
            self.fg[fn.usr] = r = r if len(r) <= 6 else set()
        return r

    def ends(self, fn):
        """Parameters another one is compared with, and which stay where they are."""
        r = self.en.get(fn.usr)
        if r is None:
            r = set()
            mod = self.fixed(fn)[0]
            ps = [p for p in fn.params if iscur(p['ty']) and p.get('id') is not None]
            for p, q in zip(fn.params, fn.params[1:]):
                if p in ps and q in ps and base(p['ty']) == base(q['ty']) and ('v', q['id']) not in mod and ('v', p['id']) in mod:
                    for n in fn.nodes():
                        op, ops = opcall(n)
                        if op in ('<', '!=', '==') and len(ops) == 2 and {keyof(ops[0]), keyof(ops[1])} == {('v', p['id']), ('v', q['id'])}:
                            r.add(('v', q['id']))
            self.en[fn.usr] = r
        return r

    def start(self, fn):
        st = frozenset((('v', p['id']), 'entry') for p in fn.params if iscur(p['ty']) and p.get('id') is not None)
        for k in self.ends(fn):
            st = put(st, k, 'end')
        return st

    def summary(self, fn):
        """(parameters that have to be readable on entry, what the reference parameters are left as)"""
        r = self.sum.get(fn.usr)
        if r is None:
            self.sum[fn.usr] = ({}, {})
            c = Cursors(self, fn)
            st = self.start(fn)
            if not st:
                return self.sum[fn.usr]
            try:
                X = c.run(fn, {st})
                ex = {}
                for p in fn.params:
                    k = ('v', p.get('id'))
                    vs = {get(s, k) for s in X.ret}
                    ex[k] = vs.pop() if len(vs) == 1 else 'moved' if vs & BAD and not vs & {'other', 'many'} and not (fn.d.get('ret') or {}).get('b') else 'other'
                    if ex[k] == 'entry' or not isinstance(ex[k], str):
                        ex[k] = 'other'
                r = (c.need, ex)
                mod = self.fixed(fn)[0]
                ids = {('v', p.get('id')): i for i, p in enumerate(fn.params)}
                for k, i in ids.items():
                    vs = {get(s, k) for s in X.ret}
                    if k not in mod and vs and 'entry' not in vs and 'other' not in vs and not vs & BAD:
                        oks = {v for v in vs if v != 'many'}
                        js = {v[1] for v in oks}
                        if not oks:
                            self.ens.setdefault(fn.usr, {})[i] = 'many'
                        elif len(js) == 1 and ids.get(list(js)[0]) is not None:
                            self.ens.setdefault(fn.usr, {})[i] = (ids[list(js)[0]], min(v[2] for v in oks))
            except Unsupported:
                r = ({}, {})
            self.sum[fn.usr] = r
        return r


BAD = {'moved', 'begin', 'found', 'end'}


def explore(prog):
    w = World(prog)
    out, bad = [], []
    for f in prog.real_fns():
        if f.d.get('impl') or f.body is None or not f.file.startswith(REPO):
            continue
        if not w.judged(f):
            if not any(w.judged(t) for n in f.nodes() if n.get('k') == 'call' for t in w.prog.targets(n) if t.body is not None):
                continue
        uses = {}
        st = w.start(f)
        try:
            Cursors(w, f, uses).run(f, {st})
        except Unsupported as e:
            bad.append((f, str(e)))
            continue
        out += [(what, *r) for (what, _), r in uses.items()]
    return out, bad


CTYPE = {'isspace', 'isdigit', 'isalpha', 'isalnum', 'isupper', 'islower', 'isxdigit', 'ispunct', 'isprint', 'isgraph'}


class Texts(Flow):
    """Walks through text that ends with a NUL."""

    def __init__(self, w, fn):
        super().__init__(w.prog)
        self.w, self.fn = w, fn
        self.cl = const_locals(w.prog, fn)
        self.uses = {}
        mod, ini = w.fixed(fn)
        # pointers into text the function looks at character by character
        self.judged = set()
        jd = w.judged(fn)
        for n in fn.nodes():
            if n.get('k') in ('if', 'while', 'for', 'do', 'switch', 'cond') and n.get('cond') or n.get('k') == 'cond':
                for x in walk(n.get('cond') or n['c'][0]):
                    k = self.char(x)
                    if k and k not in jd:
                        self.judged.add(k)
        self.judged &= {k for k in self.judged if k in mod}

    def char(self, n):
        """The cursor whose present character n is."""
        n = strip(n)
        if n.get('k') == 'un' and n['op'] == '*':
            b = strip(n['c'][0])
            if b.get('k') == 'un' and b['op'] in ('pre++', 'post++'):
                b = strip(b['c'][0])
            if 'char' in ((b.get('ty') or {}).get('s') or '') and (b.get('ty') or {}).get('ptr'):
                return keyof(b)
        if n.get('k') == 'idx' and strip(n['c'][1]).get('v') == 0 and 'char' in ((n['c'][0].get('ty') or {}).get('s') or ''):
            return keyof(n['c'][0])
        return None

    def moved(self, n):
        n = strip(n)
        return n.get('k') == 'un' and strip(n['c'][0]).get('op') == 'post++'

    def good(self, k, n, st):
        """The character n looks at is not the NUL."""
        if self.moved(n):
            return put(st, k, 'unk') if get(st, k) == 'past' else st
        return put(st, k, 'nn')

    def assume(self, n, truth, st):
        n = strip(n)
        if n.get('k') == 'un' and n['op'] == '!':
            return self.assume(n['c'][0], not truth, st)
        if n.get('k') == 'var' and n.get('dk') == 'local' and n['id'] in self.cl:
            return self.assume(self.cl[n['id']]['init'], truth, st)
        k = self.char(n)
        if k:
            if truth:
                return (self.good(k, n, st),)
            return () if get(st, k) == 'nn' and not self.moved(n) else (st,)
        if n.get('k') == 'bin' and n['op'] in REL:
            for a, b in (n['c'], n['c'][::-1]):
                k = self.char(a)
                if k:
                    v = strip(b).get('v')
                    if n['op'] in ('==', '!='):
                        if v is not None and v != 0 and truth == (n['op'] == '=='):
                            return (self.good(k, a, st),)
                        if v == 0 and truth != (n['op'] == '=='):
                            return (self.good(k, a, st),)
                        if v is None:
                            return (self.good(k, a, st),)
                        return (st,)
                    return (self.good(k, a, st),)
        # any other question about the character is taken at its word
        for x in walk(n):
            if x.get('k') == 'call' and x.get('n') in CTYPE and x.get('a') and self.char(x['a'][0]):
                if truth:
                    st = self.good(self.char(x['a'][0]), x['a'][0], st)
            elif x.get('k') in ('call', 'bin') and x.get('n') not in CTYPE and x.get('op') not in REL:
                for a in x.get('a') or []:
                    if self.char(a):
                        st = put(st, self.char(a), 'nn')
                    elif keyof(a):
                        st = put(st, keyof(a), 'nn')
        return (st,)

    def assume_case(self, cond, case, st):
        k = self.char(cond)
        if k and case.get('cv'):
            return (self.good(k, cond, st),)
        return (st,)

    def declare(self, v, st):
        if v.get('init') is not None and keyof({'k': 'var', 'dk': 'local', 'id': v['id'], 'ty': v.get('ty')}):
            return (put(st, ('v', v['id']), self.val(v['init'], st)),)
        return (st,)

    def val(self, e, st):
        k = keyof(e)
        e = strip(e)
        return get(st, k) if k else 'unk' if e.get('k') == 'call' and e.get('n') in ('c_str', 'data', 'getenv') else 'other'

    def leaf(self, n, st):
        k = n.get('k')
        if k == 'un' and n['op'] in ('pre++', 'post++'):
            key = keyof(n['c'][0])
            if key and key in self.judged:
                v = get(st, key)
                if v == 'past':
                    self.uses.setdefault(id(n), [n, 'advances', set()])[2].add(v)
                return (put(st, key, {'nn': 'unk', 'unk': 'past', 'past': 'past'}.get(v, 'other')),)
        if k in ('un', 'idx'):
            key = self.char(n)
            if key and key in self.judged and not self.moved(n):
                self.uses.setdefault(id(n), [n, 'reads', set()])[2].add(get(st, key))
            return (st,)
        if k == 'bin' and n['op'] in ASSIGN:
            key = keyof(n['c'][0])
            if key:
                return (put(st, key, self.val(n['c'][1], st) if n['op'] == '=' else 'other'),)
        if k in ('call', 'ctor', 'un'):
            for r in writes(self.prog, n):
                key = ('v', r[2]) if r[0] == 'v' else r
                if get(st, key) != 'other' and not (k == 'un' and n['op'] != '&'):
                    st = put(st, key, 'unk')
            for a in n.get('a') or []:
                a = strip(a)
                if a.get('k') == 'un' and a['op'] == '&' and keyof(a['c'][0]):
                    st = put(st, keyof(a['c'][0]), 'unk')
        return (st,)


PUSH = {'push', 'push_back', 'push_front', 'emplace', 'emplace_back', 'emplace_front'}
TAKE = {'top', 'back', 'front', 'pop', 'pop_back', 'pop_front'}


class Stacks(Flow):
    """Takes from a container the function elsewhere asks whether it is empty."""

    def __init__(self, w, fn):
        super().__init__(w.prog)
        self.w, self.fn = w, fn
        self.cl = const_locals(w.prog, fn)
        self.uses = {}
        self.judged = set()
        for n in fn.nodes():
            if n.get('k') in ('if', 'while', 'for', 'do') or n.get('k') == 'bin' and n['op'] in ('&&', '||'):
                es = [n['cond']] if n.get('cond') else n.get('c', []) if n['k'] == 'bin' else []
                for e in es:
                    for x in walk(e):
                        k = self.asks(x)
                        if k:
                            self.judged.add(k)
        for n in fn.nodes():        # an assertion is no question
            if n.get('k') == 'cond' and any(x.get('nr') for x in walk(n)):
                pass

    def key(self, n):
        n = strip(n)
        if n.get('k') == 'var' and n.get('dk') in ('local', 'param'):
            return ('v', n['dk'], n['id'])
        if n.get('k') == 'field' and strip(n['b']).get('k') == 'this':
            return ('f', n['n'])
        return None

    def asks(self, n):
        if n.get('k') == 'call' and n.get('n') in ('empty', 'size', 'length') and n.get('obj') is not None:
            return self.key(n['obj'])
        return None

    def assume(self, n, truth, st):
        n = strip(n)
        if n.get('k') == 'un' and n['op'] == '!':
            return self.assume(n['c'][0], not truth, st)
        if n.get('k') == 'var' and n.get('dk') == 'local' and n['id'] in self.cl:
            return self.assume(self.cl[n['id']]['init'], truth, st)
        if n.get('k') == 'call' and n.get('n') == 'empty' and self.asks(n):
            k = self.asks(n)
            if truth and get(st, k) == 'some':
                return ()
            return (put(st, k, 'none' if truth else 'some'),)
        for x in walk(n):
            k = self.asks(x)
            if k:
                st = put(st, k, 'some')     # any other question about the size is taken as asked well
            # a look at the top that came out one way or the other has been made
            if x.get('k') == 'call' and x.get('n') in TAKE and x.get('obj') is not None and self.key(x['obj']):
                st = put(st, self.key(x['obj']), 'some')
        return (st,)

    def declare(self, v, st):
        return (put(st, ('v', 'local', v['id']), 'other'),)

    def leaf(self, n, st):
        k = n.get('k')
        if k == 'call' and n.get('obj') is not None:
            key = self.key(n['obj'])
            if key:
                m = n.get('n')
                if m in TAKE:
                    v = get(st, key)
                    if key in self.judged:
                        self.uses.setdefault(id(n), [n, set()])[1].add(v)
                    if m.startswith('pop'):
                        return (put(st, key, 'taken'),)
                    return (put(st, key, 'some'),)
                if m in PUSH:
                    return (put(st, key, 'some'),)
                if m == 'clear':
                    return (put(st, key, 'none'),)
        if k in ('call', 'ctor', 'bin'):
            for r in writes(self.prog, n):
                if r and get(st, r) != 'other' and not (k == 'call' and n.get('n') in TAKE | PUSH):
                    st = put(st, r, 'other')
        return (st,)


def asserted(fn):
    """Nodes that belong to an assertion's condition."""
    out = set()
    for n in fn.nodes():
        if n.get('k') == 'cond' and any(x.get('nr') for c in n['c'][1:] for x in walk(c)):
            out |= {id(x) for x in walk(n['c'][0])}
    return out


def from_tokens(prog, fn):
    """Every caller hands this function a token: text whose shape was settled
    when it was cut out."""
    if any('token' in (p['ty'].get('s') or '') and p['ty'].get('ref') and not (p['ty'].get('s') or '').startswith('const ') for p in fn.params):
        return False        # it cuts them out itself
    if not hasattr(prog, '_ctors'):
        prog._ctors = {}
        for f in prog.real_fns():
            for n in f.nodes():
                if n.get('k') in ('ctor', 'call') and n.get('fn'):
                    prog._ctors.setdefault(n['fn'], []).append(n)
    cs = prog._ctors.get(fn.usr) or []
    return bool(cs) and all(any('token' in ((strip(a).get('ty') or {}).get('s') or '') and not iscur(strip(a).get('ty')) for a in n.get('a') or []) for n in cs)


def one(g):
    prog = load(g)
    out, bad = explore(prog)
    w = World(prog)
    res = []
    for what, f, n, k, vs in out:
        b = sorted(vs & BAD)
        if b and from_tokens(prog, f):
            b = None
        res.append(('end', what, f.at(n), f.n, rel(f.file), b, 'other' in vs and not b))
    texts = set()
    for what, f, n, k, vs in out:
        if any('__normal_iterator<const char' in ((x.get('ty') or {}).get('s') or '') or 'string' in ((x.get('ty') or {}).get('s') or '') for x in walk(n)):
            texts.add(f.usr)
    for f in prog.real_fns():
        if f.d.get('impl') or f.body is None or not f.file.startswith(REPO):
            continue
        t = Texts(w, f)
        if t.judged:
            try:
                t.run(f, {frozenset((('v', p['id']), 'unk') for p in f.params if ('v', p.get('id')) in t.judged)})
                for n, what, vs in t.uses.values():
                    res.append(('nul', what, f.at(n), f.n, rel(f.file), ['past'] if 'past' in vs else [], False))
            except Unsupported as e:
                bad.append((f, str(e)))
        if f.usr in texts:
            s = Stacks(w, f)
            if s.judged:
                skip = asserted(f)
                try:
                    s.run(f, {frozenset()})
                    for n, vs in s.uses.values():
                        if id(n) not in skip:
                            res.append(('empty', 'takes %s of' % n['n'], f.at(n), f.n, rel(f.file), sorted(vs & {'none', 'taken'}), 'other' in vs and not vs & {'none', 'taken'}))
                except Unsupported as e:
                    bad.append((f, str(e)))
    return res, [(f.at(), f.n, e) for f, e in bad]


def rel(p):
    p = str(p)
    return p[len(REPO) + 1:] if p.startswith(REPO + '/') else p


SAY = {'end': 'a cursor that may be at the end of its range', 'nul': 'a pointer that may be past the NUL that ends its text',
       'empty': 'a container that may be empty'}


def check(prop):
    from multiprocessing import Pool
    ck = Check(prop, 'on every path a cursor the function compares with an end has been found short of it since it last moved whenever it is read or advanced; '
                     'a pointer into text that ends with a NUL has not been advanced over a character nobody looked at; what a parser takes from a container it elsewhere asks about is there',
               ['a cursor the function never compares with an end is not judged: its caller may know how much there is',
                'what a predicate says of a cursor it is handed is taken at its word',
                'the emptiness of a container is taken as known when the function asks for its size anywhere'])
    groups = ['lib', 'utils'] + apps()
    with Pool(min(8, len(groups))) as pool:
        rs = pool.map(one, groups, 1)
    seen, unds = {}, {}
    for res, und in rs:
        for clause, what, at, n, file, b, u in res:
            o = seen.setdefault((clause, what, at, n, file), [set(), False, False])
            if b is None:
                o[2] = True
            else:
                o[0].update(b)
            o[1] |= u
        for at, n, e in und:
            unds[at] = (n, e)
    for (clause, what, at, n, file), (b, u, tok) in sorted(seen.items()):
        ck.count('places')
        ok = False if b else None if tok else True
        ck.obligation(clause, at, ok, key='%s|%s|%s' % (file, n, what), msg='%s %s %s' % (n, what, SAY[clause]))
    for at, (n, e) in sorted(unds.items()):
        ck.obligation('analysed', at, None, msg='%s: %s' % (n, e))
    ck.floor('end', 100)
    ck.floor('nul', 10)
    return ck.finish()

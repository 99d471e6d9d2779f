"""Numbers that come from the user are checked before they are used to divide,
to pick an element or to step an iterator."""
import re
from ..flow import Flow, Unsupported
from ..ir import walk, load, apps, REPO
from ..expr import strip, ASSIGN, const_locals
from ..report import Check

L, U, Z = 'L', 'U', 'Z'     # lower bound, upper bound, not zero: still to be checked
ALL = frozenset((L, U, Z))
WORD = {L: 'a lower bound', U: 'an upper bound', Z: 'zero'}
SIGNED = {'int', 'long', 'long long', 'short'}
UNSIGNED = {'unsigned int', 'unsigned long', 'unsigned long long', 'unsigned short'}
SOURCES = {'atoi', 'atol', 'atoll', 'strtol', 'strtoul', 'strtoll', 'strtoull', 'lexical_cast', 'stoi', 'stol', 'stoul'}
REL = {'<', '<=', '>', '>=', '==', '!='}
FLIP = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}
NOT = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}


def tyname(t):
    s = (t or {}).get('s') or ''
    s = s.replace('const ', '').replace(' const', '').strip()
    if s.endswith('&'):
        s = s[:-1].strip()
    return s


def isint(t):
    s = tyname(t)
    return s in SIGNED or s in UNSIGNED


def unsigned(t):
    return tyname(t) in UNSIGNED


def intval(n):
    n = strip(n)
    if n.get('k') == 'int':
        return n.get('v')
    if n.get('k') == 'un' and n['op'] == '-' and strip(n['c'][0]).get('k') == 'int':
        return -strip(n['c'][0])['v']
    if n.get('k') == 'enum':
        return n.get('v')
    if n.get('k') == 'ctor' and len(n.get('a') or []) == 1:
        return intval(n['a'][0])
    if n.get('k') in ('ctor', 'zero', 'valinit') and not (n.get('a') or n.get('c')) and isint(n.get('ty')):
        return 0
    return None


def iszero(n):
    n = strip(n)
    return n.get('k') in ('chr', 'int') and n.get('v') in (48, '0')


def bare(n):
    """strip, and see through a value wrapped in a class that converts back."""
    n = strip(n)
    while True:
        if n.get('k') == 'call' and (n.get('n') or '').startswith('operator ') and n.get('obj') is not None:
            n = strip(n['obj'])
        elif n.get('k') == 'ctor' and len(n.get('a') or []) == 1 and (isint(n['a'][0].get('ty')) or strip(n['a'][0]).get('k') == 'ctor'):
            n = strip(n['a'][0])
        else:
            return n


def keyof(n):
    n = bare(n)
    if n.get('k') == 'var' and n.get('dk') in ('local', 'param'):
        return ('v', n['id'])
    if n.get('k') == 'field':
        b = strip(n['b']) if n.get('b') is not None else {}
        if b.get('k') == 'var' and b.get('dk') == 'param' and n['n'] in ('first', 'second'):
            return ('p', b['id'], n['n'])
        if 'pair<' in (n.get('rec') or ''):
            return None
        return ('f', n.get('rec'), n['n'])
    return None


def ispair(t):
    s = (t or {}).get('s') or ''
    return 'std::pair<int, int>' in s or 'std::pair<unsigned' in s


def keys(n):
    """Keys in a linear expression."""
    n = bare(n)
    k = keyof(n)
    if k:
        return {k}
    if n.get('k') == 'bin' and n['op'] in ('+', '-', '*'):
        return keys(n['c'][0]) | keys(n['c'][1])
    if n.get('k') == 'un' and n['op'] in ('-', 'pre++', 'pre--', 'post++', 'post--'):
        return keys(n['c'][0])
    if n.get('k') == 'bin' and n['op'] in ASSIGN:
        return keys(n['c'][0])
    if n.get('k') == 'call' and n.get('n') in ('min', 'max', 'abs'):
        return set().union(*[keys(a) for a in n['a']])
    return set()


def modal(n, truth):
    """A test of something that is not a number: a flag or a mode."""
    if n.get('k') == 'un' and n['op'] == '!':
        return modal(strip(n['c'][0]), truth)
    if n.get('k') == 'bin' and n['op'] in ('&&', '||'):
        return all(modal(strip(x), truth) for x in n['c'])
    if n.get('k') == 'bin' and n['op'] in ('==', '!='):
        return all(not isint(bare(x).get('ty')) for x in n['c']) or any(strip(x).get('k') == 'enum' for x in n['c'])
    return n.get('k') in ('var', 'field') and tyname(n.get('ty')) == 'bool'


class World:
    """What is known about the numbers of one program."""

    def __init__(self, prog):
        self.prog = prog
        self.field = {}    # (rec, name) -> {missing fact: origin}
        self.param = {}    # (usr, i) -> likewise
        self.ret = {}      # usr -> likewise
        self.local = {}    # (usr, id) -> likewise
        self.changed = False
        self.memo = {}

    def add(self, tab, key, miss):
        if not miss:
            return
        d = tab.setdefault(key, {})
        for m, o in miss.items():
            new = o - d.get(m, frozenset())
            if new and len(d.get(m, ())) < 40:
                d[m] = d.get(m, frozenset()) | new
                self.changed = True


def merge(*ms):
    out = {}
    for m in ms:
        for k, v in m.items():
            out[k] = out[k] | v if k in out else v
    return out


class Numbers(Flow):
    def __init__(self, w, fn, sinks=None):
        super().__init__(w.prog)
        self.w, self.fn, self.sinks = w, fn, sinks
        self.pidx = {p.get('id'): i for i, p in enumerate(fn.params)}
        self.cl = const_locals(w.prog, fn)
        self.flags = {}
        self.digits = any(n.get('k') == 'call' and n.get('n') == 'isdigit' for n in fn.nodes())

    def many(self, f, S):
        out = set()
        for s in S:
            for t in f(s):
                out.add(t)
        # what every way of getting here has checked
        return out if len(out) <= 4 else {frozenset.intersection(*out)}

    def origin(self, what, n):
        return frozenset({(self.fn.file, '%s at %s' % (what, self.fn.at(n)))})

    # -- what is still unchecked about a value -------------------------------
    def known(self, k):
        if k[0] == 'v':
            d = self.w.local.get((self.fn.usr, k[1]), {})
            if k[1] in self.pidx:
                d = merge(d, self.w.param.get((self.fn.usr, self.pidx[k[1]]), {}))
            return d
        if k[0] == 'p':
            i = self.pidx.get(k[1])
            return self.w.param.get((self.fn.usr, i, k[2]), {})
        return self.w.field.get(k[1:], {})

    def pairs(self, e, st):
        """What is unchecked about the members of a pair of numbers."""
        n = strip(e)
        while n.get('k') == 'ctor' and len(n.get('a') or []) == 1:
            n = strip(n['a'][0])
        if n.get('k') in ('call', 'ctor') and (n.get('n') == 'make_pair' or n.get('k') == 'ctor') and len(n.get('a') or []) == 2 and ispair(n.get('ty')):
            return [self.miss(a, st) for a in n['a']]
        if n.get('k') == 'var' and n.get('dk') == 'param' and n['id'] in self.pidx:
            i = self.pidx[n['id']]
            return [{m: o for m, o in self.w.param.get((self.fn.usr, i, x), {}).items() if (('p', n['id'], x), m) not in st} for x in ('first', 'second')]
        return None

    def miss(self, e, st):
        if e is None:
            return {}
        n = bare(e)
        k = n.get('k')
        key = keyof(n)
        if key:
            d = {m: o for m, o in self.known(key).items() if (key, m) not in st}
            if unsigned(n.get('ty')):
                d.pop(L, None)
            return d
        if k == 'bin':
            op = n['op']
            a, b = n['c']
            if op == '=':
                return self.miss(b, st)
            if op in ASSIGN:
                return merge(self.miss(a, st), self.miss(b, st))
            if op in REL or op in ('&&', '||'):
                return {}
            if op == ',':
                return self.miss(b, st)
            A, B = self.miss(a, st), self.miss(b, st)
            if op == '%':
                if B:
                    return merge(A, B)
                return {m: o for m, o in A.items() if m != U}
            if op == '/':
                return A
            if op == '&':
                return {} if not A or not B else A
            if op in ('>>', '<<'):
                return A
            R = merge(A, B)
            if R and op == '-' and intval(b) is None or op == '-' and A:
                o = next(iter(R.values()))
                R = merge(R, {Z: o})
            if op == '+' and Z in R and L not in R and ((intval(b) or 0) > 0 or (intval(a) or 0) > 0):
                R.pop(Z)
            # a digit
            if op == '-' and iszero(b) and not A:
                return {Z: self.origin('digit', n)}
            return R
        if k == 'un':
            if n['op'] in ('!',):
                return {}
            return self.miss(n['c'][0], st) if n.get('c') else {}
        if k == 'cond':
            T, F = self.condev(n['c'][0], {st})
            return merge(*([self.miss(n['c'][1], s) for s in T] + [self.miss(n['c'][2], s) for s in F]))
        if k in ('call', 'ctor'):
            nm = n.get('n') or ''
            if k == 'call' and nm in ('min', 'max') and len(n.get('a') or []) == 2:
                A, B = self.miss(n['a'][0], st), self.miss(n['a'][1], st)
                drop = U if nm == 'min' else L
                R = merge(A, B)
                if not (drop in A and drop in B):
                    R.pop(drop, None)
                return R
            if nm == 'abs':
                return {m: o for m, o in self.miss(n['a'][0], st).items() if m != L}
            if nm in SOURCES and isint(n.get('ty')):
                # a caller that looks at the characters itself: no sign
                ms = {U, Z} if unsigned(n.get('ty')) or self.digits else ALL
                return {m: self.origin(nm, n) for m in ms}
            if k == 'call' and isint(n.get('ty')):
                return merge(*[self.w.ret.get(t.usr, {}) for t in self.prog.targets(n)])
        return {}

    # -- facts -----------------------------------------------------------------
    def give(self, st, ks, facts):
        ks = set(ks)
        for k in list(ks):
            # a copy that never changes: what is checked of it is checked of the original
            for _ in range(3):
                v = self.cl.get(k[1]) if k and k[0] == 'v' else None
                k = keyof(v['init']) if v is not None else None
                if k:
                    ks.add(k)
        return st | frozenset((k, f) for k in ks for f in facts)

    def verdicts(self, i):
        """Keys compared in anything a flag is set to."""
        if i not in self.flags:
            ks = set()
            for n in self.fn.nodes():
                es = []
                if n.get('k') == 'decl':
                    es = [v['init'] for v in n.get('c', []) if v.get('id') == i and v.get('init') is not None]
                elif n.get('k') == 'bin' and n['op'] in ASSIGN and keyof(n['c'][0]) == ('v', i):
                    es = [n['c'][1]]
                for e in es:
                    for x in walk(e):
                        if x.get('op') in REL and x.get('k') == 'bin':
                            ks |= keys(x['c'][0]) | keys(x['c'][1])
            self.flags[i] = ks
        return self.flags[i]

    def condev(self, n, S):
        S = set(S)
        T, F = super().condev(n, S)
        if n is None:
            return T, F
        m = strip(n)
        if m.get('k') == 'bin' and m['op'] in ('&&', '||') and S and not any(x.get('k') == 'bin' and x['op'] in ASSIGN or x.get('k') == 'un' and x['op'] in ('pre++', 'pre--', 'post++', 'post--') for x in walk(m)):
            a = frozenset.intersection(*[self.facts(m, True, s, 4) - s for s in S])
            b = frozenset.intersection(*[self.facts(m, False, s, 4) - s for s in S])
            T, F = {t | a for t in T}, {t | b for t in F}
        return T, F

    def assume(self, n, truth, st):
        return (self.facts(n, truth, st, 4),)

    def facts(self, n, truth, st, depth):
        n = bare(n)
        k = n.get('k')
        op = n.get('op')
        if k == 'un' and op == '!':
            return self.facts(n['c'][0], not truth, st, depth)
        if k == 'bin' and op in ('&&', '||'):
            if (op == '&&') == truth:
                for c in n['c']:
                    st = self.facts(c, truth, st, depth)
                return st
            # either: what both give
            a = self.facts(n['c'][0], truth, st, depth)
            b = self.facts(n['c'][1], truth, st, depth)
            c = [strip(x) for x in n['c']]
            for i in (0, 1):
                # a test of a mode beside a test of the number: taken together
                if modal(c[i], op == '||') and not modal(c[1 - i], op == '||'):
                    return b if i == 0 else a
            return a & b
        if k == 'bin' and op in REL or k == 'call' and op in REL and len((n.get('a') or [])) + (n.get('obj') is not None) == 2:
            ab = n['c'] if k == 'bin' else ([n['obj']] if n.get('obj') is not None else []) + list(n['a'])
            a, b = ab
            if not truth:
                op = NOT[op]
            st = self.rel(a, op, b, st)
            return self.rel(b, FLIP[op], a, st)
        if k == 'bin' and op in ASSIGN:
            return self.facts(n['c'][0], truth, st, depth)
        key = keyof(n)
        if key:
            if key[0] == 'v' and key[1] in self.cl and depth and tyname(n.get('ty')) == 'bool':
                return self.facts(self.cl[key[1]]['init'], truth, st, depth - 1)
            if key[0] == 'v' and tyname(n.get('ty')) == 'bool':
                return self.give(st, self.verdicts(key[1]), ALL)
            return self.give(st, {key}, (Z,) if truth else (L, U))
        if k == 'call':
            # a predicate of ours or of the library is taken at its word
            for a in list(n.get('a') or []) + ([n['obj']] if n.get('obj') is not None else []):
                st = self.give(st, keys(a), ALL)
        return st

    def rel(self, a, op, b, st):
        ks = keys(a)
        if not ks:
            return st
        c = intval(b)
        # the comparison is made in an unsigned type: a negative value is huge
        un = any(x is not None and unsigned(x.get('ty')) for x in (a, b)) or \
            any(strip(x).get('k') == 'call' and unsigned(strip(x).get('ty')) for x in (a, b))
        if op in ('<', '<='):
            f = [U] + ([L] if un else [])
            if c is not None and (c < 0 or op == '<' and c <= 0):
                f.append(Z)
        elif op in ('>', '>='):
            f = [L]
            if c is not None and (c > 0 or op == '>' and c >= 0):
                f.append(Z)
            elif c is None and op == '>' and un:
                f.append(Z)
        elif op == '==':
            f = [L, U] + ([Z] if c is None or c else [])
        else:
            f = [Z] if c == 0 else []
        if Z in f and keyof(a) is None and not (bare(a).get('k') == 'un'):
            f.remove(Z)
        return self.give(st, ks, f)

    def assume_case(self, cond, case, st):
        ks = keys(cond)
        if case.get('k') == 'nodefault' or case.get('cv') is None:
            return (st,)
        return (self.give(st, ks, (L, U) + ((Z,) if case.get('cv') else ())),)

    # -- effects ---------------------------------------------------------------
    def store(self, key, tgt, miss, st):
        """A value with what is unchecked about it goes into a variable."""
        if unsigned(tgt):
            miss = {m: o for m, o in miss.items()}
        if key[0] == 'p':
            return st
        if key[0] == 'v':
            self.w.add(self.w.local, (self.fn.usr, key[1]), miss)
        else:
            self.w.add(self.w.field, key[1:], miss)
        st = frozenset(x for x in st if x[0] != key)
        return st | frozenset((key, f) for f in ALL if f not in miss)

    def declare(self, v, st):
        if v.get('init') is not None and not v.get('static') and (isint(v.get('ty')) or (v.get('ty') or {}).get('cls')):
            if isint(v.get('ty')) or isint(bare(v['init']).get('ty')):
                st = self.store(('v', v['id']), v.get('ty'), self.miss(v['init'], st), st)
        return (st,)

    def init(self, fn, i, S):
        e = i.get('e')
        S = self.ev(e, S) if e else S
        if i.get('field') and e is not None and isint(bare(e).get('ty')):
            S = {self.store(('f', fn.cls, i['field']), i.get('ty') or bare(e).get('ty'), self.miss(e, s), s) for s in S}
        return S

    def on_return(self, n, st):
        if n.get('e') is not None and isint(self.fn.d.get('ret')):
            self.w.add(self.w.ret, self.fn.usr, self.miss(n['e'], st))
        return (st,)

    def sink(self, kind, n, e, need, st):
        if self.sinks is None:
            return
        d = {m: o for m, o in self.miss(e, st).items() if m in need}
        key = (kind, id(n))
        r = self.sinks.setdefault(key, [self.fn, n, {}, e, {}])
        for m, o in self.miss(e, frozenset()).items():
            if m in need:
                r[4][m] = r[4].get(m, frozenset()) | o
        for m, o in d.items():
            r[2][m] = r[2].get(m, frozenset()) | o

    def leaf(self, n, st):
        k = n.get('k')
        if k == 'bin':
            op = n['op']
            if op in ('/', '%', '/=', '%=') and isint(n['c'][1].get('ty')) and isint(n['c'][0].get('ty')) and intval(n['c'][1]) is None:
                self.sink('divides by', n, n['c'][1], {Z}, st)
            if op in ('+', '-', '+=', '-=') and (n['c'][0].get('ty') or {}).get('ptr') and isint(n['c'][1].get('ty')):
                self.sink('steps a pointer by', n, n['c'][1], {L, U}, st)
            if op == '=':
                key = keyof(n['c'][0])
                if key and isint(n['c'][0].get('ty')) or key and isint(bare(n['c'][1]).get('ty')):
                    return (self.store(key, n['c'][0].get('ty'), self.miss(n['c'][1], st), st),)
            elif op in ASSIGN:
                key = keyof(n['c'][0])
                if key and isint(n['c'][0].get('ty')):
                    return (self.store(key, n['c'][0].get('ty'), self.miss(n, st), st),)
        elif k == 'idx':
            self.sink('takes element', n, n['c'][1], {L, U}, st)
        elif k == 'call':
            args = n.get('a') or []
            op = n.get('op')
            o = n.get('obj')
            if op == '[]' and args and 'map' not in (n.get('rec') or n.get('q') or ''):
                self.sink('takes element', n, args[-1], {L, U}, st)
            if op in ('+', '-', '+=', '-=') and args and isint(args[-1].get('ty')) and 'iterator' in (((o if o is not None else args[0]).get('ty') or {}).get('s') or ''):
                self.sink('steps an iterator by', n, args[-1], {L, U}, st)
            if op == '=' and o is not None and len(args) == 1 and isint(bare(args[0]).get('ty')):
                key = keyof(o)
                if key:
                    return (self.store(key, o.get('ty'), self.miss(args[0], st), st),)
            if op == '>>' and args:
                t = args[-1]
                key = keyof(t)
                if key and isint(t.get('ty')) and not isint((o if o is not None else args[0]).get('ty')):
                    ms = {U, Z} if unsigned(t.get('ty')) else ALL
                    return (self.store(key, t.get('ty'), {m: self.origin('>>', n) for m in ms}, st),)
            if op not in REL:
                self.passes(n, args, st)
            # a check that throws or ends the program
            for t in self.prog.targets(n):
                if tyname(t.d.get('ret')) in ('void', 'bool') and any(x.get('k') == 'throw' or x.get('nr') for x in t.nodes()):
                    for i, a in enumerate(args):
                        if i < len(t.params) and not (t.params[i]['ty'] or {}).get('ref'):
                            kk = keyof(a)
                            if kk:
                                pid = t.params[i].get('id')
                                if any(x.get('k') in ('bin', 'call') and x.get('op') in REL and any(y.get('k') == 'var' and y.get('id') == pid for y in walk(x)) for x in t.nodes()):
                                    st = self.give(st, {kk}, ALL)
        elif k == 'ctor':
            self.passes(n, n.get('a') or [], st)
        return (st,)

    def passes(self, n, args, st):
        ts = self.prog.targets(n) if n.get('k') == 'call' else ([self.prog.fn(n.get('fn'))] if n.get('fn') and self.prog.fn(n.get('fn')) is not None else [])
        for t in ts:
            if t is None or t.body is None or t.n == 'operator[]':
                continue
            for i, a in enumerate(args):
                if i < len(t.params) and ispair(t.params[i].get('ty')):
                    ps = self.pairs(a, st)
                    for x, m in zip(('first', 'second'), ps or []):
                        self.w.add(self.w.param, (t.usr, i, x), m)
                if i < len(t.params) and isint(t.params[i].get('ty')):
                    m = self.miss(a, st)
                    if m and '/apps/' in self.fn.file and '/apps/' not in t.file:
                        m = {x: frozenset(('>' + t.usr if '/apps/' in p else p, w) for p, w in o) for x, o in m.items()}
                    if m:
                        self.w.add(self.w.param, (t.usr, i), m)


def interesting(w, f):
    us = w.memo.get(f.usr)
    if us is None:
        fl, ca, src = set(), set(), False
        for n in f.nodes():
            k = n.get('k')
            if k == 'field':
                fl.add((n.get('rec'), n['n']))
            elif k == 'call':
                if n.get('fn'):
                    ca.add(n['fn'])
                if n.get('n') in SOURCES or n.get('op') == '>>':
                    src = True
            elif k == 'bin' and n['op'] == '-' and iszero(n['c'][1]):
                src = True
        us = w.memo[f.usr] = (fl, ca, src)
    fl, ca, src = us
    if src or any((f.usr, i) in w.param or (f.usr, i, 'first') in w.param for i in range(len(f.params))) or fl & set(w.field):
        return True
    return any(t.usr in w.ret for c in ca if c in w.calls for t in w.calls[c])


def explore(prog):
    w = World(prog)
    fns = [f for f in prog.real_fns() if not f.d.get('impl') and f.body is not None]
    w.calls = {}
    for f in fns:
        for n in f.nodes():
            if n.get('k') == 'call' and n.get('fn') and isint(n.get('ty')):
                w.calls.setdefault(n['fn'], []).extend(t for t in prog.targets(n) if t not in w.calls.get(n['fn'], []))
    bad = {}
    for rnd in range(12):
        w.changed = False
        for f in fns:
            if f.usr in bad or not interesting(w, f):
                continue
            try:
                Numbers(w, f).run(f, {frozenset()})
            except Unsupported as e:
                bad[f.usr] = str(e)
        if not w.changed:
            break
    sinks = {}
    done = 0
    for f in fns:
        if f.usr in bad or not interesting(w, f):
            continue
        done += 1
        Numbers(w, f, sinks).run(f, {frozenset()})
    return w, sinks, bad, done


def near(sink, origin, fn):
    """A number that goes straight from where it was read to where it is used:
    within one source file of the library, within one program, or from a
    program into the library function it is handed to."""
    if sink == origin or origin == '>' + fn:
        return True
    d = sink.split('/')[:2]
    return d[0] == 'apps' and (origin.split('/')[:2] == d or origin.startswith('apps/utils/'))


def rel(p):
    p = str(p)
    return p[len(REPO) + 1:] if p.startswith(REPO + '/') else p


def one(g):
    prog = load(g)
    w, sinks, bad, done = explore(prog)
    out = {}
    for (kind, _), (f, n, d, e, full) in sinks.items():
        fr = rel(f.file)
        src = sorted({t for o in full.values() for file, t in o if near(fr, rel(file), f.usr)})
        if not src or not f.file.startswith(REPO):
            continue
        b = {}
        for m, o in d.items():
            ts = sorted(t for file, t in o if near(fr, rel(file), f.usr))
            if ts:
                b[m] = ts
        key = (f.at(n), kind)
        old = out.get(key)
        if old:
            for m, ts in old[2].items():
                b.setdefault(m, ts)
        out[key] = (f.n, fr, b, src)
    und = [(prog.fn(u).at(), prog.fn(u).n, r) for u, r in bad.items()]
    lib = []
    for f in prog.real_fns():
        if f.d.get('impl') or f.body is None or not f.file.startswith(REPO):
            continue
        for n in f.nodes():
            t = (n.get('ty') or {}).get('s') or ''
            m = DIVIDER.search(t) or DIVIDER.search(n.get('rec') or '')
            if m:
                lib.append((f.at(n), f.n, rel(f.file), m.group(0)))
    return g, done, out, und, sorted(set(lib))


DIVIDER = re.compile(r'std::(modulus|divides)<(unsigned |long |)*(int|long|short|void|)>')


def check(prop):
    from multiprocessing import Pool
    ck = Check(prop, 'a number that comes from outside (text that is converted, a digit, an extraction from a stream) reaches a division only after '
                     'zero is excluded, and reaches an element access or a step of an iterator or pointer only after it was compared both ways',
               ['a comparison of the number with anything is a check of that side; whether the bound is the right one is not judged',
                'a predicate or a throwing checker the number is handed to is taken at its word',
                'within the library the number is followed inside one source file, within a program through that program and the code the programs share',
                'contents of containers and maps, and overflow of the arithmetic, are not followed'])
    seen = {}
    groups = ['utils'] + apps()
    with Pool(min(8, len(groups))) as pool:
        res = pool.map(one, groups, 1)
    libs, unds = {}, {}
    for g, done, out, und, lib in res:
        ck.count('functions followed', done)
        for key, v in out.items():
            o = seen.get(key)
            if o:
                b = dict(o[2])
                for m, ts in v[2].items():
                    b.setdefault(m, ts)
                v = (v[0], v[1], b, sorted(set(o[3]) | set(v[3])))
            seen[key] = v
        for at, n, r in und:
            unds[at] = (n, r)
        for l in lib:
            libs[l] = g
    for at, (n, r) in sorted(unds.items()):
        ck.obligation('analysed', at, None, msg='%s: %s' % (n, r))
    for (at, kind), (n, file, b, src) in sorted(seen.items()):
        clause = 'zero' if kind == 'divides by' else 'bounds'
        ck.obligation(clause, at, not b, key='%s|%s|%s|%s' % (file, n, kind, ','.join(sorted(b))),
                      msg='%s %s a number that came from %s without a check of %s' % (n, kind, '; '.join(sorted({t for ts in b.values() for t in ts})[:3]), ' and '.join(WORD[m] for m in sorted(b))))
    for at, n, file, t in sorted(libs):
        ck.obligation('divider', at, False, key='%s|%s|%s' % (file, n, t), msg='%s hands out %s, which does not look at the divisor' % (n, t))
    ck.floor('zero', 2)
    ck.floor('bounds', 3)
    return ck.finish()

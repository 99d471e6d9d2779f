"""Abstract evaluation of small functions over *orderings*.

A function that touches values only by comparing them is decided completely by
the finite set of orderings of the values it compares.  This module evaluates a
function's syntax tree over abstract objects: every scalar (or library-typed)
projection of an object is an abstract rank chosen, on demand, from a small
ordered domain, and all choices are enumerated.  Calls to functions with known
bodies are inlined.  Anything else raises Undecidable."""


class Undecidable(Exception):
    pass


class NullDeref(Exception):
    def __init__(self, n, what):
        self.n = n
        self.what = what


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class Oracle:
    """Enumerates every sequence of choices."""

    def __init__(self, limit=60000):
        self.pref = []
        self.i = 0
        self.runs = 0
        self.limit = limit

    def choose(self, k):
        if self.i < len(self.pref):
            v = self.pref[self.i][0]
        else:
            v = 0
            self.pref.append([0, k])
        self.i += 1
        return v

    def all(self, f):
        while True:
            self.i = 0
            self.runs += 1
            if self.runs > self.limit:
                raise Undecidable('too many orderings')
            yield f()
            while self.pref and self.pref[-1][0] + 1 >= self.pref[-1][1]:
                self.pref.pop()
            if not self.pref:
                return
            self.pref[-1][0] += 1


class Obj:
    """An lvalue: an abstract object named by its access path."""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return '<%s>' % self.p

    def __eq__(self, o):
        return isinstance(o, Obj) and o.p == self.p

    def __hash__(self):
        return hash(self.p)


class Ptr:
    __slots__ = ('o',)

    def __init__(self, o):
        self.o = o


CMP = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b, '>': lambda a, b: a > b,
       '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b}


class Eval:
    DEPTH = 12
    STEPS = 4000

    def __init__(self, prog, oracle, ranks=2):
        self.prog = prog
        self.o = oracle
        self.ranks = ranks
        self.store = {}
        self.fresh = 100
        self.env = None
        self.depth = 0
        self.steps = 0

    # -- scalars ---------------------------------------------------------
    def rank(self, path, ty=None):
        if path not in self.store:
            ty = ty or {}
            k = self.ranks
            if ty.get('b') and not ty.get('ptr'):
                k = 2
            self.store[path] = self.o.choose(k)
        return self.store[path]

    def val(self, n):
        """rvalue of expression n"""
        v = self.ev(n)
        return self.rv(v, n.get('ty') or {})

    def rv(self, v, ty):
        if isinstance(v, Obj):
            return self.rank(v.p, ty)
        if isinstance(v, Ptr):
            return ('ptr', v.o.p)
        return v

    def is_scalarish(self, ty):
        return not ty.get('cls') or ty.get('ptr')

    def ev(self, n):
        self.steps += 1
        if self.steps > self.STEPS:
            raise Undecidable('too long')
        k = n['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Undecidable('expression %s' % k)
        return m(n)

    def e_int(self, n):
        return n['v']
    e_bool = e_int
    e_chr = e_int
    e_enum = e_int

    def e_null(self, n):
        return 0

    def e_str(self, n):
        return Obj('str:%r' % n.get('s', n.get('v')))

    def e_fref(self, n):
        return 1
    e_mref = e_fref

    def e_zero(self, n):
        return 0

    def e_idx(self, n):
        a, i = self.ev(n['c'][0]), self.ev(n['c'][1])
        if isinstance(a, Obj):
            return Obj('%s[%s]' % (a.p, i.p if isinstance(i, Obj) else i))
        raise Undecidable('subscript')

    def e_this(self, n):
        return Ptr(self.env['this'])

    def e_var(self, n):
        if n['dk'] == 'param':
            return self.env['params'][n['id']]
        if n['dk'] == 'local':
            if n['id'] in self.env['locals']:
                return self.env['locals'][n['id']]
            raise Undecidable('local %s' % n['n'])
        return Obj('::' + n['n'])

    def deref(self, v, n, ty):
        if isinstance(v, Ptr):
            return v.o
        if isinstance(v, Obj):
            v = self.rank(v.p, {'ptr': 1})
        if v == 0:
            raise NullDeref(n, 'null pointer')
        if isinstance(v, tuple) and v[0] == 'ptr':
            return Obj(v[1])
        return Obj('heap<%s>%s' % (ty, v))

    def e_field(self, n):
        b = self.ev(n['b'])
        if n.get('arrow'):
            b = self.deref(b, n, n['rec'])
        if not isinstance(b, Obj):
            raise Undecidable('member of a value')
        return Obj(b.p + '.' + n['n'])

    def e_depmem(self, n):
        b = self.ev((n.get('c') or [n.get('b')])[0] if not n.get('b') else n['b'])
        if n.get('arrow'):
            b = self.deref(b, n, '?')
        if not isinstance(b, Obj):
            raise Undecidable('member of a value')
        return Obj(b.p + '.' + n['n'])

    def e_icast(self, n):
        ck = n.get('ck')
        c = n['c'][0]
        v = self.ev(c)
        if ck in ('LValueToRValue', 'IntegralToBoolean', 'PointerToBoolean'):
            v = self.rv(v, c.get('ty') or {})
            if ck in ('IntegralToBoolean', 'PointerToBoolean'):
                return v != 0
        return v

    def e_cast(self, n):
        c = n['c'][0]
        v = self.ev(c)
        if n.get('sty') == 'dynamic' or n.get('ck') == 'Dynamic':
            return v
        if n.get('ck') in ('IntegralToBoolean', 'PointerToBoolean'):
            return self.rv(v, c.get('ty') or {}) != 0
        return v

    def truth(self, n):
        v = self.ev(n)
        if isinstance(v, Ptr):
            return True
        if isinstance(v, Obj):
            ty = n.get('ty') or {}
            v = self.rank(v.p, ty)
        return bool(v)

    def e_un(self, n):
        op = n['op']
        c = n['c'][0]
        if op == '!':
            return not self.truth(c)
        if op == '&':
            v = self.ev(c)
            if isinstance(v, Obj):
                return Ptr(v)
            raise Undecidable('address of a value')
        if op == '*':
            return self.deref(self.ev(c), n, (n.get('ty') or {}).get('cls') or (n.get('ty') or {}).get('s'))
        if op in ('pre++', 'pre--', 'post++', 'post--'):
            l = self.ev(c)
            v = self.val(c)
            if isinstance(l, Obj) and isinstance(v, int):
                w = v + (1 if '++' in op else -1)
                self.store[l.p] = w
                return w if op.startswith('pre') else v
        if op in ('-', '+', '~'):
            v = self.val(c)
            if isinstance(v, int):
                return -v if op == '-' else v if op == '+' else ~v
        raise Undecidable('unary ' + op)

    def e_bin(self, n):
        op = n['op']
        a, b = n['c']
        if op == '&&':
            return self.truth(a) and self.truth(b)
        if op == '||':
            return self.truth(a) or self.truth(b)
        if op == ',':
            self.ev(a)
            return self.ev(b)
        if op == '=':
            v = self.val(b)
            l = self.ev(a)
            if isinstance(l, Obj):
                self.store[l.p] = v
                return l
            raise Undecidable('assignment')
        if op in CMP:
            return self.compare(op, self.val(a), self.val(b))
        if op in ('+', '-', '&', '|', '^', '*'):
            x, y = self.val(a), self.val(b)
            if isinstance(x, int) and isinstance(y, int):
                return {'+': x + y, '-': x - y, '&': x & y, '|': x | y, '^': x ^ y, '*': x * y}[op]
        raise Undecidable('operator ' + op)

    def compare(self, op, x, y):
        if isinstance(x, tuple) or isinstance(y, tuple):
            if op == '==':
                return x == y
            if op == '!=':
                return x != y
            if isinstance(x, tuple) and isinstance(y, tuple):
                return CMP[op](x, y)
            raise Undecidable('pointer order')
        return CMP[op](x, y)

    def e_cond(self, n):
        return self.ev(n['c'][1] if self.truth(n['c'][0]) else n['c'][2])

    def e_ctor(self, n):
        # copies and conversions of one argument are transparent
        a = n.get('a', [])
        if n.get('ck') in ('copy', 'move') and len(a) == 1:
            return self.ev(a[0])
        if len(a) == 0:
            return Obj('new<%s>' % n.get('q'))
        raise Undecidable('construction of ' + str(n.get('q')))

    def e_init(self, n):
        if len(n.get('a', [])) == 1:
            return self.ev(n['a'][0])
        raise Undecidable('initialiser list')

    def e_call(self, n):
        op = n.get('op')
        args = list(n.get('a') or [])
        obj = n.get('obj')
        t = self.prog.fn(n.get('fn')) if n.get('fn') else None
        if t is not None and t.body is not None and not n.get('virt') and self.depth < self.DEPTH:
            o = None
            if t.get('lambda') is None and n.get('mc') or obj is not None:
                o = self.ev(obj) if obj is not None else None
                if n.get('arrow') or isinstance(o, Ptr):
                    o = self.deref(o, n, n.get('rec'))
                if obj is not None and not isinstance(o, Obj):
                    raise Undecidable('call on a value')
            args0 = args
            vals = []
            for i, a in enumerate(args):
                v = self.ev(a)
                pt = t.params[i]['ty'] if i < len(t.params) else {}
                if isinstance(v, Obj) and not pt.get('ref') and self.is_scalarish(pt):
                    v = self.rv(v, pt)
                vals.append(v)
            try:
                return self.inline(t, o, vals)
            except Undecidable:
                if (t.get('ret') or {}).get('void') or (t.get('ret') or {}).get('ref'):
                    raise
                parts = ([o] if o is not None else []) + vals
                return Obj('%s(%s)' % (t.q, ','.join(self.name(v) for v in parts)))
        # library or virtual operators: an unknown but consistent comparison
        if op in CMP or n.get('n') in ('operator' + o for o in CMP):
            op = op or n['n'][8:]
            xs = ([obj] if obj is not None else []) + args
            if len(xs) == 2:
                return self.compare(op, self.val(xs[0]), self.val(xs[1]))
        if n.get('n') == 'lexicographical_compare' and len(args) >= 4:
            ps = []
            for a in args[:4]:
                v = self.ev(a)
                if not isinstance(v, Obj):
                    raise Undecidable('lexicographical_compare')
                ps.append(v.p)

            def seq(b, e):
                if b.endswith('.begin()') and e.endswith('.end()') and b[:-8] == e[:-6]:
                    return b[:-8]
                raise Undecidable('lexicographical_compare over %s, %s' % (b, e))
            return self.rank(seq(ps[0], ps[1])) < self.rank(seq(ps[2], ps[3]))
        if (n.get('n') or '').startswith('operator') and op in ('*', '->') and obj is not None and not args:
            v = self.ev(obj)
            return self.deref(v, n, (n.get('ty') or {}).get('cls'))
        if op == '[]' and obj is not None and len(args) == 1:
            o, i = self.ev(obj), self.ev(args[0])
            if isinstance(o, Obj):
                return Obj('%s[%s]' % (o.p, self.name(i)))
        if op == '()' and obj is not None:
            o = self.ev(obj)
            vs = [self.ev(a) for a in args]
            q = (n.get('rec') or '')
            if q.startswith('std::less') and len(vs) == 2:
                return self.compare('<', *[self.rv(v, {}) for v in vs])
        if obj is not None and not args or op is None and obj is None and all(True for _ in args):
            parts = []
            if obj is not None:
                o = self.ev(obj)
                if isinstance(o, Ptr):
                    o = o.o
                elif n.get('arrow'):
                    o = self.deref(o, n, n.get('rec'))
                if not isinstance(o, Obj):
                    raise Undecidable('call on a value')
                return Obj('%s.%s()' % (o.p, n['n']))
            for a in args:
                v = self.ev(a)
                if isinstance(v, Ptr):
                    v = v.o
                parts.append(v.p if isinstance(v, Obj) else str(v))
            if not args:
                # an argument-less function yields a fresh value each time
                self.fresh += 1
                return self.fresh
            return Obj('%s(%s)' % (n.get('q'), ','.join(parts)))
        raise Undecidable('call of %s' % (n.get('q') or n.get('n')))

    def name(self, v):
        if isinstance(v, Ptr):
            return '&' + v.o.p
        return v.p if isinstance(v, Obj) else str(v)

    def inline(self, t, this, vals):
        save = self.env
        self.env = {'this': this, 'params': dict(enumerate(vals)), 'locals': {}}
        self.depth += 1
        if self.depth > self.DEPTH:
            raise Undecidable('recursion')
        try:
            self.ex(t.body)
        except _Ret as r:
            return r.v
        finally:
            self.env = save
            self.depth -= 1
        return None

    # -- statements --------------------------------------------------------
    def ex(self, s):
        if s is None:
            return
        k = s['k']
        if k == 'block':
            for c in s.get('c', []):
                self.ex(c)
        elif k == 'ret':
            if not s.get('e'):
                raise _Ret(None)
            raise _Ret(self.ret(s['e']))
        elif k == 'if':
            if s.get('init') or s.get('var'):
                if s.get('init'):
                    self.ex(s['init'])
                if s.get('var'):
                    self.ex(s['var'])
            if self.truth(s['cond']):
                self.ex(s.get('then'))
            else:
                self.ex(s.get('else'))
        elif k == 'decl':
            for v in s.get('c', []):
                i = v.get('init')
                if v.get('static'):
                    path = 'static:%s' % v['id']
                    if path not in self.store:
                        x = self.ev(i) if i is not None else 0
                        if not isinstance(x, (int, bool)):
                            raise Undecidable('static local')
                        self.store[path] = x + 100      # apart from every rank
                    self.env['locals'][v['id']] = Obj(path)
                    continue
                if i is None:
                    raise Undecidable('uninitialised local')
                x = self.ev(i)
                if isinstance(x, Obj) and not v['ty'].get('ref') and self.is_scalarish(v['ty']):
                    x = self.rv(x, v['ty'])
                self.env['locals'][v['id']] = x
        elif k in ('nop',):
            pass
        elif k in ('while', 'for', 'do', 'rfor', 'switch', 'try', 'break', 'continue', 'other', 'case', 'default'):
            raise Undecidable('statement ' + k)
        else:
            self.ev(s)

    def ret(self, e):
        v = self.ev(e)
        ty = e.get('ty') or {}
        if isinstance(v, Obj) and (ty.get('b') or ty.get('int')) and not ty.get('ref'):
            return self.rank(v.p, ty)
        return v

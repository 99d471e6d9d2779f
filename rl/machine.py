"""An abstract machine over finite summaries.

Library values (rows, changes, ...) are opaque atoms of which only identity and
order are known, numbers are drawn from a finite partition chosen by the rule,
and standard containers are summarised by the few abstract elements the rule puts
into them.  Function bodies are interpreted over that domain straight from the
syntax tree; whatever leaves the fragment raises Unknown, which a rule turns into
an undecided obligation."""
from .expr import strip, ASSIGN


class Unknown(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Thrown(Exception):
    def __init__(self, ty):
        self.ty = ty


class Bad(Exception):
    """Behaviour the language leaves undefined."""
    def __init__(self, what, n=None):
        self.what = what
        self.n = n


class Cell:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Atom:
    def __init__(self, name, rank=0, cls=None):
        self.name = name; self.rank = rank; self.cls = cls

    def __repr__(self):
        return self.name


class Obj:
    """A class instance; members are cells."""
    def __init__(self, cls, **f):
        self.cls = cls
        self.f = {k: Cell(v) for k, v in f.items()}

    def copy(self):
        o = Obj(self.cls)
        o.f = {k: Cell(clone(c.v)) for k, c in self.f.items()}
        return o


class Ptr:
    def __init__(self, o):
        self.o = o


class Node:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Seq:
    """list, vector, deque: nodes in order; multimap/map/set keep `key` order."""
    def __init__(self, kind, items=()):
        self.kind = kind
        self.nodes = [Node(x) for x in items]

    def copy(self):
        return Seq(self.kind, [clone(n.v) for n in self.nodes])

    def values(self):
        return [n.v for n in self.nodes]


class It:
    def __init__(self, s, node, rev=False):
        self.s = s; self.node = node; self.rev = rev

    def pos(self):
        if self.node is None:
            return len(self.s.nodes)
        for i, n in enumerate(self.s.nodes):
            if n is self.node:
                return i
        raise Bad('an iterator to an element that is gone')

    def at(self, p):
        if p < 0 or p > len(self.s.nodes):
            raise Bad('an iterator past the end')
        return It(self.s, self.s.nodes[p] if p < len(self.s.nodes) else None, self.rev)


def clone(v):
    if isinstance(v, (Obj, Seq)):
        return v.copy()
    return v


KIND = [('std::multimap', 'multimap'), ('std::map', 'map'), ('std::multiset', 'multiset'), ('std::set', 'set'), ('std::list', 'seq'),
        ('std::__cxx11::list', 'seq'), ('std::vector', 'seq'), ('std::deque', 'seq')]


def kind_of(q):
    for p, k in KIND:
        if (q or '').startswith(p + '<'):
            return k
    return None


class Machine:
    DEPTH = 10
    STEPS = 20000
    ATOMS = ('ringing::row', 'ringing::change', 'ringing::bell')     # opaque classes

    def __init__(self, prog):
        self.prog = prog
        self.env = None
        self.depth = 0
        self.steps = 0
        self.glob = {}

    # ---- values
    def rv(self, v):
        while isinstance(v, Cell):
            v = v.v
        return v

    def val(self, n):
        return self.rv(self.ev(n))

    def num(self, n):
        v = self.val(n)
        if isinstance(v, bool):
            return int(v)
        if not isinstance(v, int):
            raise Unknown('not a number')
        return v

    def truth(self, n):
        return self.as_bool(self.val(n))

    def as_bool(self, v):
        if v is None:
            return False
        if isinstance(v, (bool, int)):
            return bool(v)
        if isinstance(v, Ptr):
            return True
        raise Unknown('condition')

    def eq(self, a, b):
        a, b = self.rv(a), self.rv(b)
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            return a == b
        if isinstance(a, It) and isinstance(b, It):
            return a.pos() == b.pos() and a.s is b.s
        if isinstance(a, Ptr) or isinstance(b, Ptr) or a is None or b is None:
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                return a.o is b.o
            if a in (None, 0) and b in (None, 0):
                return True
            return False
        if isinstance(a, Atom) and isinstance(b, Atom):
            return a is b
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        raise Unknown('comparison')

    def less(self, a, b):
        a, b = self.rv(a), self.rv(b)
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            return a < b
        if isinstance(a, Atom) and isinstance(b, Atom):
            return a.rank < b.rank
        raise Unknown('comparison')

    def fit(self, v, ty):
        s = (ty or {}).get('s') or ''
        if isinstance(v, int) and not isinstance(v, bool):
            if 'unsigned' in s or s == 'size_t':
                w = 64 if 'long' in s or s == 'size_t' else 16 if 'short' in s else 8 if 'char' in s else 32
                return v % (1 << w)
            if s in ('int', 'long', 'const int', 'const long'):
                w = 64 if 'long' in s else 32
                v %= 1 << w
                return v - (1 << w) if v >= 1 << (w - 1) else v
        return v

    # ---- expressions
    def ev(self, n):
        self.steps += 1
        if self.steps > self.STEPS:
            raise Unknown('too long')
        m = getattr(self, 'e_' + n['k'], None)
        if m is None:
            raise Unknown('expression ' + n['k'])
        return m(n)

    def e_int(self, n):
        return n['v']
    e_enum = e_int
    e_chr = e_int

    def e_bool(self, n):
        return bool(n['v'])

    def e_str(self, n):
        return n.get('v')

    def e_null(self, n):
        return None

    def e_zero(self, n):
        return 0

    def e_this(self, n):
        return Ptr(self.env['this'])

    def e_var(self, n):
        d = self.env['params'] if n['dk'] == 'param' else self.env['locals'] if n['dk'] == 'local' else {}
        if n.get('id') in d:
            return d[n['id']]
        if n.get('q') in self.glob or n.get('n') in self.glob:
            return self.glob.get(n.get('q'), self.glob.get(n.get('n')))
        raise Unknown('variable %s' % n.get('n'))

    def e_cast(self, n):
        v = self.ev(n['c'][0])
        if n.get('ck') in ('IntegralToBoolean', 'PointerToBoolean'):
            return self.as_bool(self.rv(v))
        return v

    def e_icast(self, n):
        ck = n.get('ck')
        if ck in ('IntegralToBoolean', 'PointerToBoolean'):
            return self.truth(n['c'][0])
        v = self.ev(n['c'][0])
        if ck == 'IntegralCast':
            return self.fit(self.rv(v), n.get('ty'))
        if ck == 'NullToPointer':
            return None
        return v

    def target(self, v, n, arrow):
        v = self.rv(v)
        if isinstance(v, Ptr):
            return v.o
        if v is None or v == 0 and arrow:
            raise Bad('a null pointer is followed', n)
        if isinstance(v, It):
            return self.deref(v, n)
        return v

    def deref(self, v, n):
        v = self.rv(v)
        if isinstance(v, Ptr):
            return v.o
        if v is None:
            raise Bad('a null pointer is followed', n)
        if isinstance(v, It):
            p = v.pos()
            if v.rev:
                p -= 1
            if p < 0 or p >= len(v.s.nodes):
                raise Bad('the end of a sequence is dereferenced', n)
            nd = v.s.nodes[p]
            return nd.v if isinstance(nd.v, (Obj, Seq)) else Cellof(nd)
        raise Unknown('dereference')

    def e_field(self, n):
        b = self.target(self.ev(n['b']), n, n.get('arrow'))
        if isinstance(b, Obj):
            if n['n'] in b.f:
                return b.f[n['n']]
            return self.missing(b, n)
        raise Unknown('member ' + n['n'])

    def missing(self, b, n):
        raise Unknown('member ' + n['n'])

    def e_un(self, n):
        op = n['op']
        c = n['c'][0]
        if op == '!':
            return not self.truth(c)
        if op in ('pre++', 'pre--', 'post++', 'post--'):
            l = self.ev(c)
            o = self.rv(l)
            if not isinstance(l, (Cell, Cellof)) or not isinstance(o, int):
                raise Unknown('step')
            l.v = self.fit(o + (1 if '++' in op else -1), c.get('ty'))
            return l if op.startswith('pre') else o
        if op == '-':
            return self.fit(-self.num(c), n.get('ty'))
        if op == '+':
            return self.num(c)
        if op == '*':
            return self.deref(self.ev(c), n)
        if op == '&':
            v = self.ev(c)
            w = self.rv(v)
            if isinstance(w, (Obj, Seq)):
                return Ptr(w)
        raise Unknown('unary ' + op)

    def e_bin(self, n):
        op = n['op']
        a, b = n['c']
        if op == '&&':
            return self.truth(a) and self.truth(b)
        if op == '||':
            return self.truth(a) or self.truth(b)
        if op == ',':
            self.ev(a)
            return self.ev(b)
        if op in ASSIGN:
            v = self.val(b)
            l = self.ev(a)
            if not isinstance(l, (Cell, Cellof)):
                raise Unknown('assignment')
            if op == '=':
                l.v = clone(v)
            else:
                l.v = self.fit(self.arith(op[:-1], self.rv(l), v), n.get('ty'))
            return l
        if op in ('==', '!='):
            r = self.eq(self.ev(a), self.ev(b))
            return r if op == '==' else not r
        x, y = self.num(a), self.num(b)
        if op in ('<', '>', '<=', '>='):
            return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]
        return self.fit(self.arith(op, x, y), n.get('ty'))

    def arith(self, op, x, y):
        if not isinstance(x, (int, bool)) or not isinstance(y, (int, bool)):
            raise Unknown('arithmetic')
        if op in '+-*&|^' and len(op) == 1:
            return {'+': x + y, '-': x - y, '*': x * y, '&': x & y, '|': x | y, '^': x ^ y}[op]
        if op in ('/', '%'):
            if y == 0:
                raise Bad('division by zero')
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return q if op == '/' else x - q * y
        raise Unknown('operator ' + op)

    def e_cond(self, n):
        return self.ev(n['c'][1] if self.truth(n['c'][0]) else n['c'][2])

    def e_init(self, n):
        if len(n.get('a') or []) == 1:
            return self.ev(n['a'][0])
        raise Unknown('initialiser list')

    def e_new(self, n):
        c = n.get('init') or n.get('ctor')
        if c is None:
            for x in n.get('c') or n.get('a') or []:
                if isinstance(x, dict) and x.get('k') == 'ctor':
                    c = x
        if c is None:
            raise Unknown('new')
        v = self.rv(self.ev(c))
        if isinstance(v, (Obj, Seq)):
            return Ptr(v)
        raise Unknown('new')

    def e_ctor(self, n):
        a = n.get('a') or []
        q = n.get('q') or ''
        cls = q.rsplit('::', 1)[0] if '::' in q else q
        return self.construct(cls, n, a)

    def construct(self, cls, n, a):
        rec = (n.get('ty') or {}).get('cls') or cls
        kd = kind_of(rec)
        if kd:
            if not a:
                return Seq(kd)
            v = self.val(a[0])
            if len(a) <= 2 and isinstance(v, Seq):
                return v.copy()
            raise Unknown('construction of ' + rec)
        if 'terator' in rec and len(a) == 1:
            v = self.val(a[0])
            if isinstance(v, It):
                return It(v.s, v.node, v.rev)
            raise Unknown('iterator')
        if rec.startswith('std::pair<'):
            if len(a) == 2:
                return Obj('pair', first=clone(self.val(a[0])), second=clone(self.val(a[1])))
            if len(a) == 1:
                v = self.val(a[0])
                if isinstance(v, Obj) and v.cls == 'pair':
                    return v.copy()
            raise Unknown('pair')
        if 'shared_pointer' in rec or 'scoped_pointer' in rec:
            if not a:
                return None
            if len(a) == 1:
                return self.val(a[0])
        if len(a) == 1:
            v = self.val(a[0])
            if n.get('ck') in ('copy', 'move'):
                return clone(v)
        if rec in self.ATOMS:
            return self.atom(rec, n, a)
        return self.build(rec, n, a)

    def atom(self, rec, n, a):
        if not a:
            return Atom('blank', -1, rec)
        raise Unknown('construction of ' + rec)

    def build(self, rec, n, a):
        """A class of the project: members by its constructor."""
        r = self.prog.rec_q.get(rec)
        t = self.prog.fn(n.get('fn')) if n.get('fn') else None
        if r is None or not rec.startswith('ringing::'):
            raise Unknown('construction of ' + rec)
        o = Obj(rec)
        for f in r.fields:
            o.f[f['n']] = Cell(self.default(f))
        if t is not None and t.body is not None:
            ps = self.bind(t, a)
            save = self.env
            self.env = {'this': o, 'params': ps, 'locals': {}}
            self.depth += 1
            try:
                for i in t.inits:
                    if i.get('field'):
                        o.f[i['field']].v = clone(self.val(i['e'])) if i.get('e') else None
                    else:
                        raise Unknown('base class')
                try:
                    self.ex(t.body)
                except Ret:
                    pass
            finally:
                self.env = save
                self.depth -= 1
        elif a:
            raise Unknown('construction of ' + rec)
        return o

    def default(self, f):
        ty = f.get('ty') or {}
        kd = kind_of(ty.get('cls'))
        if kd:
            return Seq(kd)
        return None

    def e_throw(self, n):
        t = n.get('tt') or {}
        raise Thrown(t.get('cls') or t.get('s'))

    # ---- calls
    def e_call(self, n):
        nm, op = n.get('n'), n.get('op')
        args = n.get('a') or []
        if n.get('obj') is not None:
            o0 = self.ev(n['obj'])
            o = self.rv(o0)
            if n.get('arrow') and not isinstance(o, It):
                o = self.target(o, n, True)
                o0 = o
            r = self.known(n, nm, op, o0, o, args)
            if r is not NotImplemented:
                return r
            if isinstance(o, Obj):
                t = self.prog.fn(n.get('fn'))
                if t is not None and t.body is not None and not n.get('virt'):
                    return self.inline(t, o, args)
            raise Unknown('call of %s' % (n.get('q') or nm))
        r = self.free(n, nm, op, args)
        if r is not NotImplemented:
            return r
        t = self.prog.fn(n.get('fn')) if n.get('fn') else None
        if t is not None and t.body is not None and not t.file.startswith('/usr/'):
            return self.inline(t, None if t.d.get('static') or not t.cls else self.env['this'], args)
        raise Unknown('call of %s' % (n.get('q') or nm))

    def free(self, n, nm, op, args):
        if op in ('==', '!=') and len(args) == 2:
            r = self.eq(self.ev(args[0]), self.ev(args[1]))
            return r if op == '==' else not r
        if op in ('<', '>', '<=', '>=') and len(args) == 2:
            x, y = self.ev(args[0]), self.ev(args[1])
            return {'<': lambda: self.less(x, y), '>': lambda: self.less(y, x), '<=': lambda: not self.less(y, x), '>=': lambda: not self.less(x, y)}[op]()
        q = n.get('q') or ''
        if nm == 'distance' and len(args) == 2:
            a, b = self.val(args[0]), self.val(args[1])
            if isinstance(a, It) and isinstance(b, It) and a.s is b.s:
                return b.pos() - a.pos()
            raise Unknown('distance')
        if nm in ('prior', 'prev', 'next') and args:
            a = self.val(args[0])
            d = self.num(args[1]) if len(args) > 1 and args[1]['k'] != 'da' else 1
            if isinstance(a, It):
                return a.at(a.pos() + (d if nm == 'next' else -d))
            raise Unknown(nm)
        if nm == 'make_pair' and len(args) == 2:
            return Obj('pair', first=clone(self.val(args[0])), second=clone(self.val(args[1])))
        if nm in ('move', 'forward') and len(args) == 1 and q.startswith('std::'):
            return self.ev(args[0])
        if nm in ('min', 'max') and len(args) == 2 and q.startswith('std::'):
            x, y = self.num(args[0]), self.num(args[1])
            return min(x, y) if nm == 'min' else max(x, y)
        return NotImplemented

    def known(self, n, nm, op, o0, o, args):
        if isinstance(o, Seq):
            return self.seqop(n, nm, op, o0, o, args)
        if isinstance(o, It):
            if op in ('->', '*') and not args:
                r = self.deref(o, n)
                return Ptr(r) if op == '->' and isinstance(r, (Obj, Seq)) else r
            if op in ('++', '--'):
                d = 1 if op == '++' else -1
                if o.rev:
                    d = -d
                new = o.at(o.pos() + d)
                if not isinstance(o0, (Cell, Cellof)):
                    raise Unknown('iterator step')
                o0.v = new
                return o0 if not args else o
            if op in ('+', '-') and len(args) == 1:
                v = self.val(args[0])
                if isinstance(v, It) and op == '-':
                    return o.pos() - v.pos()
                return o.at(o.pos() + (self.num(args[0]) if op == '+' else -self.num(args[0])))
            if op in ('==', '!=') and len(args) == 1:
                r = self.eq(o, self.ev(args[0]))
                return r if op == '==' else not r
        if isinstance(o, Ptr) or o is None:
            if nm in ('get',) and not args:
                return o
            if op == '->':
                if o is None:
                    raise Bad('a null pointer is followed', n)
                return o
            if op == '*':
                return self.deref(o, n)
            if (nm or '').startswith('operator ') and not args:
                return o is not None       # conversions to a truth value
            if nm == 'reset' and isinstance(o0, Cell):
                o0.v = self.val(args[0]) if args else None
                return None
            if op == '!' and not args:
                return o is None
        if op in ('==', '!=') and len(args) == 1:
            r = self.eq(o, self.ev(args[0]))
            return r if op == '==' else not r
        if op in ('<', '>') and len(args) == 1:
            y = self.ev(args[0])
            return self.less(o, y) if op == '<' else self.less(y, o)
        if op == '=' and len(args) == 1 and not isinstance(o, Obj):
            if isinstance(o0, (Cell, Cellof)):
                o0.v = clone(self.val(args[0]))
                return o0
        if op == '=' and len(args) == 1 and isinstance(o, Obj):
            v = self.val(args[0])
            if isinstance(v, Obj) and v.cls == o.cls:
                o.f = v.copy().f
                return o0
        return NotImplemented

    def key(self, v):
        return v.f['first'].v if isinstance(v, Obj) and v.cls == 'pair' else v

    def bounds(self, s, k):
        lo = 0
        while lo < len(s.nodes) and self.less(self.key(s.nodes[lo].v), k):
            lo += 1
        hi = lo
        while hi < len(s.nodes) and not self.less(k, self.key(s.nodes[hi].v)):
            hi += 1
        return lo, hi

    def it(self, s, p):
        return It(s, s.nodes[p] if p < len(s.nodes) else None)

    def seqop(self, n, nm, op, o0, s, args):
        ordered = s.kind != 'seq'
        if nm in ('begin', 'cbegin') and not args:
            return self.it(s, 0)
        if nm in ('end', 'cend') and not args:
            return It(s, None)
        if nm in ('rbegin', 'crbegin') and not args:
            return It(s, None, True)
        if nm in ('rend', 'crend') and not args:
            return It(s, s.nodes[0] if s.nodes else None, True)
        if nm in ('size', 'length') and not args:
            return len(s.nodes)
        if nm == 'empty' and not args:
            return not s.nodes
        if nm == 'clear' and not args:
            del s.nodes[:]
            return None
        if nm == 'reserve':
            return None
        if nm == 'swap' and len(args) == 1:
            v = self.val(args[0])
            if isinstance(v, Seq):
                s.nodes, v.nodes = v.nodes, s.nodes
                return None
        if op == '=' and len(args) == 1:
            v = self.val(args[0])
            if isinstance(v, Seq):
                s.nodes = v.copy().nodes
                return o0
        if nm == 'erase':
            if len(args) == 1:
                v = self.val(args[0])
                if isinstance(v, It) and v.s is s:
                    p = v.pos()
                    if p >= len(s.nodes):
                        raise Bad('the end of a sequence is erased', n)
                    del s.nodes[p]
                    return self.it(s, p)
                if ordered:
                    lo, hi = self.bounds(s, v)
                    del s.nodes[lo:hi]
                    return hi - lo
            if len(args) == 2:
                a, b = self.val(args[0]), self.val(args[1])
                if isinstance(a, It) and isinstance(b, It) and a.s is s and b.s is s:
                    p, e = a.pos(), b.pos()
                    if p > e:
                        raise Bad('a reversed range is erased', n)
                    del s.nodes[p:e]
                    return self.it(s, p)
            raise Unknown('erase')
        if ordered:
            if nm in ('equal_range', 'lower_bound', 'upper_bound', 'count', 'find') and len(args) == 1:
                lo, hi = self.bounds(s, self.val(args[0]))
                if nm == 'count':
                    return hi - lo
                if nm == 'equal_range':
                    return Obj('pair', first=self.it(s, lo), second=self.it(s, hi))
                if nm == 'find':
                    return self.it(s, lo) if hi > lo else It(s, None)
                return self.it(s, lo if nm == 'lower_bound' else hi)
            if nm in ('insert', 'emplace'):
                hint = None
                if len(args) == 2 and nm == 'insert':
                    hint = self.val(args[0])
                    if not isinstance(hint, It):
                        raise Unknown('insert')
                v = clone(self.val(args[-1]))
                k = self.key(v)
                lo, hi = self.bounds(s, k)
                if s.kind in ('map', 'set') and hi > lo:
                    return self.it(s, lo) if hint else Obj('pair', first=self.it(s, lo), second=False)
                p = hi
                if hint is not None:
                    h = hint.pos()
                    p = h if lo <= h <= hi else hi if h > hi else lo
                nd = Node(v)
                s.nodes.insert(p, nd)
                return It(s, nd) if hint is not None or s.kind.startswith('multi') else Obj('pair', first=It(s, nd), second=True)
        else:
            if nm in ('push_back', 'push_front') and len(args) == 1:
                nd = Node(clone(self.val(args[0])))
                if nm == 'push_back':
                    s.nodes.append(nd)
                else:
                    s.nodes.insert(0, nd)
                return None
            if nm in ('pop_back', 'pop_front') and not args:
                if not s.nodes:
                    raise Bad('an element is taken from an empty sequence', n)
                del s.nodes[-1 if nm == 'pop_back' else 0]
                return None
            if nm in ('back', 'front') and not args:
                if not s.nodes:
                    raise Bad('an element of an empty sequence is read', n)
                nd = s.nodes[-1 if nm == 'back' else 0]
                return nd.v if isinstance(nd.v, (Obj, Seq)) else Cellof(nd)
            if nm == 'insert' and len(args) == 2:
                a = self.val(args[0])
                if isinstance(a, It) and a.s is s:
                    nd = Node(clone(self.val(args[1])))
                    s.nodes.insert(a.pos(), nd)
                    return It(s, nd)
            if op == '[]' and len(args) == 1:
                i = self.num(args[0])
                if not 0 <= i < len(s.nodes):
                    raise Bad('an element past the end is read', n)
                nd = s.nodes[i]
                return nd.v if isinstance(nd.v, (Obj, Seq)) else Cellof(nd)
        raise Unknown('container operation ' + str(nm))

    def bind(self, t, args):
        ps = {}
        for i, a in enumerate(args):
            v = self.ev(a)
            pt = t.params[i]['ty'] if i < len(t.params) else {}
            ps[i] = v if pt.get('ref') else Cell(clone(self.rv(v)))
        return ps

    def e_da(self, n):
        raise Unknown('default argument')

    def inline(self, t, this, args):
        if self.depth > self.DEPTH:
            raise Unknown('recursion')
        ps = self.bind(t, args)
        return self.run(t, this, ps)

    def run(self, t, this, ps):
        save = self.env
        self.env = {'this': this, 'params': ps, 'locals': {}}
        self.depth += 1
        try:
            self.ex(t.body)
        except Ret as r:
            return r.v
        finally:
            self.env = save
            self.depth -= 1
        return None

    # ---- statements
    def ex(self, s):
        if s is None:
            return
        self.steps += 1
        if self.steps > self.STEPS:
            raise Unknown('too long')
        k = s['k']
        if k == 'block':
            for c in s.get('c', []):
                self.ex(c)
        elif k == 'ret':
            if not s.get('e'):
                raise Ret(None)
            v = self.ev(s['e'])
            raise Ret(v if (s.get('ref') or isinstance(self.rv(v), (Obj, Seq))) else self.rv(v))
        elif k == 'if':
            if s.get('init'):
                self.ex(s['init'])
            if s.get('var'):
                self.ex(s['var'])
            if self.truth(s['cond']):
                self.ex(s.get('then'))
            else:
                self.ex(s.get('else'))
        elif k == 'decl':
            for v in s.get('c', []):
                self.declare(v)
        elif k == 'nop':
            pass
        elif k == 'break':
            raise Brk()
        elif k == 'continue':
            raise Cont()
        elif k in ('for', 'while'):
            if s.get('init') is not None:
                self.ex(s['init'])
            while True:
                if s.get('var'):
                    self.ex(s['var'])
                if s.get('cond') is not None and not self.truth(s['cond']):
                    break
                try:
                    self.ex(s.get('b'))
                except Brk:
                    break
                except Cont:
                    pass
                if k == 'for' and s.get('inc') is not None:
                    self.ev(s['inc'])
        elif k == 'do':
            while True:
                try:
                    self.ex(s.get('b'))
                except Brk:
                    break
                except Cont:
                    pass
                if not self.truth(s['cond']):
                    break
        elif k == 'rfor':
            r = self.val(s['range'])
            if not isinstance(r, Seq):
                raise Unknown('range for')
            var = s.get('var') or {}
            for nd in list(r.nodes):
                self.env['locals'][var.get('id')] = (nd.v if isinstance(nd.v, (Obj, Seq)) else Cellof(nd)) if (var.get('ty') or {}).get('ref') else Cell(clone(nd.v))
                try:
                    self.ex(s.get('b'))
                except Brk:
                    break
                except Cont:
                    pass
        elif k in ('switch', 'try', 'other', 'case', 'default'):
            raise Unknown('statement ' + k)
        else:
            self.ev(s)

    def declare(self, v):
        if v.get('static'):
            raise Unknown('static local')
        i = v.get('init')
        if i is None:
            kd = kind_of((v.get('ty') or {}).get('cls'))
            self.env['locals'][v['id']] = Cell(Seq(kd) if kd else None)
            return
        x = self.ev(i)
        if (v.get('ty') or {}).get('ref'):
            self.env['locals'][v['id']] = x
        else:
            self.env['locals'][v['id']] = Cell(clone(self.rv(x)))


class Cellof(Cell):
    """The cell of a container's element."""
    __slots__ = ('nd',)

    def __init__(self, nd):
        self.nd = nd

    @property
    def v(self):
        return self.nd.v

    @v.setter
    def v(self, x):
        self.nd.v = x

"""Abstract interpretation of small owning-pointer classes over sharing graphs.

An abstract state is a finite set of handles, the heap objects and counters
they refer to (which of them are alive) and the small counter values.  Handle
operations are the class's own syntax trees.  The reachable states of a few
handles are finite, so they are enumerated to a fixpoint."""
from .absval import Undecidable, CMP


class Fault(Exception):
    def __init__(self, what, n=None):
        self.what = what
        self.n = n


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class LV:
    """An lvalue: a named memory cell or object."""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return '<%s>' % (self.p,)


SAME = object()


class Heap:
    DEPTH = 10
    STEPS = 3000

    def __init__(self, prog, elem):
        self.prog = prog
        self.elem = elem         # the pointee class
        self.store = {}          # cell path -> value
        self.alive = {}          # heap path -> kind
        self.dead = set()
        self.n = 0
        self.env = None
        self.depth = 0
        self.steps = 0
        self.temps = []

    # -- memory ---------------------------------------------------------------
    def fresh(self, kind):
        self.n += 1
        p = '%s#%d' % (kind, self.n)
        self.alive[p] = kind
        return p

    def new_elem(self):
        return ('p', self.fresh('elem'))

    def check(self, p, n=None):
        root = p.split('.')[0]
        if '#' in root and root not in self.alive:
            raise Fault('use of %s after it was deleted' % root.split('#')[0], n)

    def load(self, lv, n=None):
        if not isinstance(lv, LV):
            return lv
        self.check(lv.p, n)
        if lv.p not in self.store:
            raise Fault('read of an unset value (%s)' % lv.p.split('.')[-1], n)
        return self.store[lv.p]

    def assign(self, lv, v, n=None):
        if not isinstance(lv, LV):
            raise Undecidable('assignment to a value')
        self.check(lv.p, n)
        self.store[lv.p] = v

    def deref(self, v, n):
        if isinstance(v, LV):
            v = self.load(v, n)
        if v == 0 or v is False:
            raise Fault('null pointer dereferenced', n)
        if isinstance(v, tuple) and v[0] == 'p':
            self.check(v[1], n)
            return LV(v[1])
        raise Undecidable('dereference')

    def delete(self, v, n):
        if v == 0:
            return
        if not (isinstance(v, tuple) and v[0] == 'p'):
            raise Undecidable('delete')
        if v[1] not in self.alive:
            raise Fault('%s deleted twice' % v[1].split('#')[0], n)
        del self.alive[v[1]]
        self.store.pop(v[1], None)

    # -- expressions -----------------------------------------------------------
    def is_val(self, ty):
        return not ty.get('ref')

    def rv(self, n):
        return self.load(self.ev(n), n)

    def ev(self, n):
        self.steps += 1
        if self.steps > self.STEPS:
            raise Undecidable('too long')
        m = getattr(self, 'e_' + n['k'], None)
        if m is None:
            raise Undecidable('expression ' + n['k'])
        return m(n)

    def e_int(self, n):
        return n['v']
    e_bool = e_chr = e_enum = e_int

    def e_null(self, n):
        return 0
    e_zero = e_null

    def e_fref(self, n):
        return ('f', n['fn'])

    def e_mref(self, n):
        return ('m', n.get('fn') or n.get('n'))

    def e_this(self, n):
        return ('p', self.env['this'])

    def e_var(self, n):
        e = self.env['vars']
        key = (n['dk'], n['id'])
        if key in e:
            return e[key]
        raise Undecidable('variable ' + n['n'])

    def e_field(self, n):
        b = self.ev(n['b'])
        if n.get('arrow'):
            b = self.deref(self.load(b, n), n)
        if not isinstance(b, LV):
            raise Undecidable('member of a value')
        self.check(b.p, n)
        return LV(b.p + '.' + n['n'])

    def e_icast(self, n):
        ck = n.get('ck')
        v = self.ev(n['c'][0])
        if ck == 'NoOp' or ck == 'DerivedToBase' or ck == 'UncheckedDerivedToBase':
            return v
        v = self.load(v, n) if not isinstance(v, LV) or ck != 'ArrayToPointerDecay' else v
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'):
            return self.bool(v)
        return v

    def e_cast(self, n):
        ck = n.get('ck')
        v = self.ev(n['c'][0])
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'):
            return self.bool(self.load(v, n))
        return v

    def bool(self, v):
        return not (v == 0)

    def truth(self, n):
        return self.bool(self.rv(n))

    def e_un(self, n):
        op = n['op']
        c = n['c'][0]
        if op == '!':
            return not self.truth(c)
        v = self.ev(c)
        if op == '&':
            if isinstance(v, LV):
                return ('p', v.p)
            if isinstance(v, tuple) and v[0] in 'fm':
                return v
            raise Undecidable('address of a value')
        if op == '*':
            w = self.load(v, n)
            if isinstance(w, tuple) and w[0] == 'f':
                return w
            return self.deref(w, n)
        if op in ('pre++', 'pre--', 'post++', 'post--'):
            x = self.load(v, n)
            if not isinstance(x, int):
                raise Undecidable('pointer arithmetic')
            y = x + (1 if '++' in op else -1)
            if abs(y) > 50:
                raise Undecidable('count too large')
            self.assign(v, y, n)
            return v if op.startswith('pre') else x
        raise Undecidable('unary ' + op)

    def e_bin(self, n):
        op = n['op']
        a, b = n['c']
        if op == '&&':
            return self.truth(a) and self.truth(b)
        if op == '||':
            return self.truth(a) or self.truth(b)
        if op == ',':
            self.ev(a)
            return self.ev(b)
        if op == '=':
            v = self.rv(b)
            l = self.ev(a)
            self.assign(l, v, n)
            return l
        if op in ('+=', '-='):
            v = self.rv(b)
            l = self.ev(a)
            x = self.load(l, n)
            if not isinstance(x, int) or not isinstance(v, int):
                raise Undecidable(op)
            self.assign(l, x + v if op == '+=' else x - v, n)
            return l
        if op in CMP:
            x, y = self.rv(a), self.rv(b)
            if op in ('==', '!='):
                return (x == y) == (op == '==')
            if isinstance(x, int) and isinstance(y, int):
                return CMP[op](x, y)
            if isinstance(x, tuple) and isinstance(y, tuple):
                return CMP[op](x, y)
            if (isinstance(x, tuple) or isinstance(y, tuple)):
                return CMP[op](x != 0, y != 0)
        if op in ('+', '-'):
            x, y = self.rv(a), self.rv(b)
            if isinstance(x, int) and isinstance(y, int):
                return x + y if op == '+' else x - y
        raise Undecidable('operator ' + op)

    def e_cond(self, n):
        return self.ev(n['c'][1] if self.truth(n['c'][0]) else n['c'][2])

    def e_new(self, n):
        ty = (n.get('ty') or {}).get('pt') or {}
        if ty.get('cls'):
            raise Undecidable('new ' + ty['cls'])
        v = self.rv(n['init']) if n.get('init') else None
        p = self.fresh('counter')
        if v is not None:
            self.store[p] = v
        return ('p', p)

    def e_del(self, n):
        self.delete(self.rv(n['c'][0]), n)

    def e_init(self, n):
        if len(n.get('a', [])) == 1:
            return self.ev(n['a'][0])
        if not n.get('a'):
            return 0
        raise Undecidable('initialiser list')

    def e_ctor(self, n):
        t = self.prog.fn(n.get('fn')) if n.get('fn') else None
        if t is None or t.body is None:
            raise Undecidable('construction of %s' % n.get('q'))
        self.n += 1
        p = 'tmp%d' % self.n
        self.call(t, p, self.args(t, n.get('a') or []))
        self.temps.append((p, t.cls))
        return LV(p)

    def args(self, t, exprs):
        out = []
        for i, a in enumerate(exprs):
            v = self.ev(a)
            pt = t.params[i]['ty'] if i < len(t.params) else {}
            if not pt.get('ref'):
                if pt.get('cls') and not pt.get('ptr'):
                    pass
                else:
                    v = self.load(v, a)
            out.append(v)
        return out

    def e_call(self, n):
        obj, a = n.get('obj'), n.get('a') or []
        name = n.get('n')
        t = self.prog.fn(n.get('fn')) if n.get('fn') else None
        if (n.get('q') or '').startswith('std::'):
            if name == 'swap' and len(a) == 2:
                x, y = self.ev(a[0]), self.ev(a[1])
                if isinstance(x, LV) and isinstance(y, LV):
                    vx, vy = self.load(x, n), self.load(y, n)
                    self.assign(x, vy, n)
                    self.assign(y, vx, n)
                    return None
            if name == 'exchange' and len(a) == 2:
                x = self.ev(a[0])
                v = self.load(x, n)
                self.assign(x, self.rv(a[1]), n)
                return v
            if name in ('move', 'forward', 'addressof') and len(a) == 1:
                v = self.ev(a[0])
                return ('p', v.p) if name == 'addressof' else v
            raise Undecidable('call of ' + n['q'])
        if obj is not None:
            o = self.ev(obj)
            if n.get('arrow'):
                o = self.deref(self.load(o, n), n)
            if isinstance(o, tuple) and o[0] == 'p':
                o = self.deref(o, n)
            if not isinstance(o, LV):
                raise Undecidable('call on a value')
            if o.p.split('#')[0] == 'elem':
                self.check(o.p, n)
                if name == 'clone':
                    return self.new_elem()
                raise Undecidable('call of %s on the pointee' % name)
            if t is None or t.body is None or n.get('virt'):
                raise Undecidable('call of %s' % n.get('q'))
            return self.call(t, o.p, self.args(t, a))
        if t is None and n.get('callee') is not None:
            f = self.rv(n['callee'])
            if f == 0:
                raise Fault('call through a null function pointer', n)
            if not (isinstance(f, tuple) and f[0] == 'f'):
                raise Undecidable('indirect call')
            t = self.prog.fn(f[1])
            if f[1] == 'delete!':
                l = self.ev(a[0])
                self.delete(self.load(l, n), n)
                if isinstance(l, LV):
                    self.assign(l, 0, n)
                return None
            if f[1] == 'clone!':
                self.deref(self.rv(a[0]), n)
                return self.new_elem()
        if t is None or t.body is None:
            raise Undecidable('call of %s' % (n.get('q') or name))
        return self.call(t, self.env['this'] if n.get('mc') else None, self.args(t, a))

    def e_throw(self, n):
        raise Undecidable('throw')

    # -- functions ---------------------------------------------------------------
    def call(self, t, this, vals):
        save, self.env = self.env, {'this': this, 'vars': {}, 'fn': t}
        self.depth += 1
        if self.depth > self.DEPTH:
            raise Undecidable('recursion')
        try:
            for i, v in enumerate(vals):
                if t.params[i]['ty'].get('ref') and isinstance(v, LV):
                    self.env['vars'][('param', i)] = v
                else:
                    self.local(('param', i), v)
            for i in range(len(vals), len(t.params)):
                d = t.params[i].get('def')
                if d is None:
                    raise Undecidable('default argument')
                self.local(('param', i), self.rv(d))
            for i in t.inits:
                if i.get('field') and i.get('e') is not None:
                    lv = LV('%s.%s' % (this, i['field']))
                    self.store[lv.p] = self.rv(i['e'])
            self.ex(t.body)
        except _Ret as r:
            return r.v
        finally:
            self.env = save
            self.depth -= 1
        return None

    def local(self, key, v):
        self.n += 1
        p = 'local%d' % self.n
        if v is not SAME:
            self.store[p] = v
        self.env['vars'][key] = LV(p)

    def full(self, f):
        """A full expression: its temporaries die at its end."""
        mark = len(self.temps)
        try:
            return f()
        finally:
            pass_temps = self.temps[mark:]
            del self.temps[mark:]
            for p, cls in reversed(pass_temps):
                self.destroy(p, cls)

    def destroy(self, p, cls):
        for f in self.prog.q('%s::~%s' % (cls, cls.split('<')[0].split('::')[-1])):
            if f.body is not None:
                save = self.env
                self.call(f, p, [])
                self.env = save
        for k in [k for k in self.store if k.startswith(p + '.')]:
            del self.store[k]

    def ex(self, s):
        if s is None:
            return
        k = s['k']
        if k == 'block':
            mine = []
            try:
                for c in s.get('c', []):
                    self.ex(c)
                    if c is not None and c['k'] == 'decl':
                        mine += [v for v in c['c'] if v['ty'].get('cls') and not v['ty'].get('ptr') and not v['ty'].get('ref')]
            finally:
                for v in reversed(mine):
                    self.destroy(self.env['vars'][('local', v['id'])].p, v['ty']['cls'])
        elif k == 'ret':
            raise _Ret(self.full(lambda: self.retval(s['e'])) if s.get('e') else None)
        elif k == 'if':
            for x in ('init', 'var'):
                if s.get(x):
                    self.ex(s[x])
            if self.full(lambda: self.truth(s['cond'])):
                self.ex(s.get('then'))
            else:
                self.ex(s.get('else'))
        elif k == 'decl':
            for v in s['c']:
                if v.get('static'):
                    raise Undecidable('static local')
                ty = v['ty']
                if v.get('init') is None:
                    self.local(('local', v['id']), SAME)
                elif ty.get('ref'):
                    self.env['vars'][('local', v['id'])] = self.ev(v['init'])
                elif ty.get('cls') and not ty.get('ptr'):
                    x = self.ev(v['init'])
                    if self.temps and isinstance(x, LV) and self.temps[-1][0] == x.p:
                        self.temps.pop()
                    else:
                        raise Undecidable('local object')
                    self.env['vars'][('local', v['id'])] = x
                else:
                    x = self.full(lambda: self.rv(v['init']))
                    self.local(('local', v['id']), x)
        elif k == 'nop':
            pass
        elif k == 'try':
            self.ex(s['b'])
        elif k in ('while', 'for', 'do', 'rfor', 'switch', 'break', 'continue', 'other', 'case', 'default'):
            raise Undecidable('statement ' + k)
        else:
            self.full(lambda: self.ev(s))

    def retval(self, e):
        v = self.ev(e)
        ty = self.env['fn'].get('ret') or {}
        if isinstance(v, LV) and not ty.get('ref') and (not ty.get('cls') or ty.get('ptr')):
            return self.load(v, e)
        return v

"""C20: a value that is refused changes nothing.

For every public operation that is handed a value, the paths on which an
exception leaves it are followed with what has been written so far: fields of
the object, settings shared by the program, objects passed in to be changed.
An exception raised over the value (or over what has just been written) after
something was written leaves the object with a value it refuses."""
import re
from collections import namedtuple
from multiprocessing import Pool
from .. import throws
from ..ir import walk, children, apps, load, belongs, REPO
from ..flow import Flow, Unsupported
from ..expr import strip, ASSIGN
from ..report import Check

LOOKS = {'begin', 'end', 'rbegin', 'rend', 'front', 'back', 'size', 'empty', 'find', 'get', 'lower_bound', 'upper_bound', 'equal_range',
         'c_str', 'data', 'str', 'reserve', 'at', 'capacity', 'count', 'length', 'max_size'}
SIZES = {'size', 'empty', 'length', 'end', 'rend', 'capacity'}

HANDLE = re.compile(r'^(?:const )?(?:ringing::)?(?:scoped|shared|cloning)_pointer<(?:class |struct )?([^<>]*)>$')

St = namedtuple('St', 'dirt vet caught')      # caught: what had been written when an exception was caught
NEW = St(frozenset(), frozenset(), False)


def own_class(ty):
    c = (ty or {}).get('cls') or ''
    return bool(c) and not c.startswith('std::') and not c.startswith('const std::') and not c.startswith('__gnu')


def raw(ty):
    """A value from outside: nothing has checked it yet."""
    if not ty:
        return False
    return True


def root(n):
    """What an lvalue is part of: ('this', field), ('p', id), ('g', name)."""
    n = strip(n)
    while n is not None:
        k = n.get('k')
        if k == 'field':
            b = strip(n['b'])
            if b is not None and b.get('k') == 'this':
                return ('this', n['n'])
            if b is not None and b.get('k') == 'un' and b['op'] == '*' and strip(b['c'][0]).get('k') == 'this':
                return ('this', n['n'])
            n = b
        elif k == 'call' and n.get('obj') is not None and (n.get('op') in ('[]', '*', '->') or n.get('n') in ('back', 'front', 'at', 'get', 'begin', 'end')):
            n = strip(n['obj'])
        elif k == 'idx':
            n = strip(n['c'][0])
        elif k == 'un' and n['op'] == '*':
            b = strip(n['c'][0])
            if b is not None and b.get('k') == 'this':
                return ('this', '*')
            n = b
        elif k == 'this':
            return ('this', '*')
        elif k == 'var':
            if n.get('dk') in ('global', 'static'):
                return ('g', n.get('q') or n.get('n'))
            if n.get('dk') == 'param':
                return ('p', n['id'])
            if n.get('dk') == 'local':
                return ('l', n['id'])
            return None
        else:
            return None
    return None


class World:
    def __init__(self, prog):
        self.prog = prog
        self.th = throws.of(prog)
        self.inner = inner_classes(prog)
        self.partial = {}        # helper -> own fields that may be written when it throws
        self.reads = {}
        self.compute_reads()

    def compute_reads(self):
        """usr -> own fields a method looks at, calls on itself included."""
        d, c = {}, {}
        for f in self.prog.real_fns():
            if not f.cls or f.body is None:
                continue
            r, k = set(), set()
            for n in f.nodes():
                if n.get('k') == 'field' and n.get('b') is not None and strip(n['b']).get('k') == 'this':
                    r.add(n['n'])
                elif n.get('k') == 'call':
                    for t in self.prog.targets(n):
                        if t.cls == f.cls:
                            k.add(t.usr)
            d[f.usr], c[f.usr] = r, k
        ch = True
        while ch:
            ch = False
            for u in d:
                for v in c[u]:
                    x = d.get(v, set()) - d[u]
                    if x:
                        d[u] |= x
                        ch = True
        self.reads = d


class Refuse(Flow):
    MAX_STATES = 600

    def __init__(self, w, fn):
        super().__init__(w.prog)
        self.w, self.fn = w, fn
        self.sure = {}
        self.bad = {}
        self.done = {}
        self.alias = {}          # local references and pointers -> root
        self.ptrs = set()
        self.guarded = False
        self.taint = self.taints()
        ids = {p['id']: p for p in fn.params}
        self.ids = ids
        self.outs = {p['id'] for p in fn.params if (p['ty'].get('ref') and not p['ty'].get('const') and not p['ty'].get('rref') and not (p['ty'].get('s') or '').startswith('const ') and own_class(p['ty']))}
        self.raws = {p['id'] for p in fn.params if raw(p['ty'])}

    def taints(self):
        """local -> parameters its value comes from."""
        t = {}
        ch = True
        fn = self.fn
        for _ in range(6):
            if not ch:
                break
            ch = False
            for n in fn.nodes():
                tgt, src = [], []
                k = n.get('k')
                if k == 'decl':
                    for v in n.get('c', []):
                        if v.get('init') is not None:
                            s = self.mentions(v['init'], t)
                            if not s <= t.get(v['id'], set()):
                                t.setdefault(v['id'], set()).update(s); ch = True
                    continue
                if k == 'rfor' and n.get('var'):
                    for v in ([n['var']] if n['var'].get('id') is not None else n['var'].get('c', [])):
                        s = self.mentions(n['range'], t)
                        if not s <= t.get(v['id'], set()):
                            t.setdefault(v['id'], set()).update(s); ch = True
                    continue
                if k == 'bin' and n['op'] in ASSIGN:
                    tgt, src = [n['c'][0]], [n['c'][1]]
                elif k == 'call' and n.get('obj') is not None and not n.get('mc'):
                    tgt, src = [n['obj']], n.get('a') or []
                elif k == 'call' and n.get('op') == '>>' and len(n.get('a') or []) == 2:
                    tgt, src = [n['a'][1]], [n['a'][0]]
                for x in tgt:
                    r = root(x)
                    if r and r[0] == 'l':
                        s = set()
                        for y in src:
                            s |= self.mentions(y, t)
                        if not s <= t.get(r[1], set()):
                            t.setdefault(r[1], set()).update(s); ch = True
        return t

    def mentions(self, n, t=None):
        t = self.taint if t is None else t
        out = set()
        for x in walk(n):
            if x.get('k') == 'var':
                if x.get('dk') == 'param':
                    out.add(x['id'])
                elif x.get('dk') == 'local':
                    out |= t.get(x['id'], set())
        return out

    def fields(self, n):
        """Roots mentioned for their value in n (not only for their size)."""
        out = set()

        def go(x):
            if x is None:
                return
            if x.get('k') == 'call' and x.get('n') in SIZES and x.get('obj') is not None:
                return
            if x.get('k') in ('field', 'var'):
                r = self.root(x)
                if r:
                    out.add(r)
            for c in children(x):
                go(c)
        go(n)
        return out

    def root(self, n):
        r = root(n)
        if r and r[0] == 'l':
            r = self.alias.get(r[1])
        return r

    def counts(self, r):
        return r is not None and (r[0] == 'this' or r[0] == 'g' and not r[1].startswith('std::') or r[0] == 'p' and r[1] in self.outs)

    def written(self, n):
        """Roots node n writes."""
        k = n.get('k')
        out = set()
        if k == 'bin' and n['op'] in ASSIGN:
            out.add(self.target(n['c'][0]))
        elif k == 'un' and ('++' in n['op'] or '--' in n['op']):
            out.add(self.target(n['c'][0]))
        elif k == 'call':
            o = n.get('obj')
            if o is not None and not n.get('mc') and n.get('n') not in LOOKS and n.get('op') not in ('[]', '*', '->', '()'):
                so = strip(o)
                if so.get('k') == 'this' or root(o) == ('this', '*'):
                    for t in self.prog.targets(n):
                        if not t.d.get('static') and t.cls:
                            out |= {('this', x) for x in self.w.wf.get(t.usr, ())}
                else:
                    out.add(self.root(o))
            elif o is not None and n.get('op') in ('[]', '()') and not n.get('mc'):
                pass
            if n.get('op') in ASSIGN and o is None and n.get('a'):
                out.add(self.root(n['a'][0]))
            t = self.prog.fn(n.get('fn')) if n.get('fn') else None
            ps = [p['ty'] for p in t.params] if t is not None else [p for p in (n.get('pt') or [])]
            for a, ty in zip(n.get('a') or [], ps):
                if isinstance(ty, dict) and ty.get('ref') and not ty.get('const') and not ty.get('rref') and not (ty.get('s') or '').startswith('const '):
                    sa = strip(a)
                    if sa is not None and sa.get('k') in ('var', 'field', 'un', 'idx', 'call'):
                        out.add(self.root(a))
        return {r for r in out if self.counts(r)}

    def target(self, n):
        """What an assignment to n writes: a pointer itself is only ours."""
        x = strip(n)
        if x is not None and x.get('k') == 'var' and x.get('dk') == 'local' and x['id'] in self.ptrs:
            return None
        return self.root(n)

    def leaf(self, n, st):
        w = self.written(n)
        if n.get('k') in ('call', 'ctor') and st is not None:
            p = self.over(n, st)[0]
            if p and self.throwing(n):
                st = st._replace(vet=st.vet | p)
        if w:
            if st.caught:
                st = st._replace(dirt=frozenset(x for x in st.dirt if x[0] not in w))
            else:
                from_outside = self.from_outside(n)
                st = st._replace(dirt=st.dirt | {(r, id(n), from_outside) for r in w if not any(d[0] == r and d[2] >= from_outside for d in st.dirt)})
            for r in w:
                self.sure.setdefault(id(n), n)
        return (st,)

    def from_outside(self, n):
        """What n writes comes from something the function was given."""
        k = n.get('k')
        if k == 'bin':
            return bool(self.mentions(n['c'][1]))
        if k == 'call':
            return any(self.mentions(a) for a in n.get('a') or [])
        return False

    def declare(self, v, st):
        ty = v.get('ty') or {}
        rec = self.prog.rec_q.get(ty.get('cls') or '')
        if rec is not None and rec.d.get('udtor') and not ty.get('ref') and not ty.get('ptr') and v.get('init') is not None and not (ty.get('cls') or '').startswith('std::') \
                and any(x.get('k') == 'this' or x.get('k') in ('field', 'var') and self.counts(self.root(x)) for x in walk(v['init'])):
            self.guarded = True      # its end may put things back
        if (ty.get('ref') or ty.get('ptr')) and v.get('init') is not None and not ty.get('const'):
            e = strip(v['init'])
            if e is not None and e.get('k') == 'un' and e['op'] == '&':
                e = e['c'][0]
            r = self.root(e)
            if r:
                self.alias[v['id']] = r
                if ty.get('ptr'):
                    self.ptrs.add(v['id'])
        return (st,)

    def throwing(self, n):
        return list(self.w.th.node(self.fn, n)) if n.get('k') in ('call', 'ctor') else []

    def over(self, n, st):
        """(raw parameters, written things) the outcome of n depends on."""
        parts = list(n.get('a') or [])
        o = n.get('obj')
        ps, fs = set(), set()
        for a in parts:
            ps |= self.mentions(a)
            fs |= self.fields(a)
        if o is not None:
            so = strip(o)
            ro = root(o)
            if so.get('k') == 'this' or ro == ('this', '*'):
                for t in self.prog.targets(n):
                    fs |= {('this', x) for x in self.w.reads.get(t.usr, ())}
            else:
                ps |= self.mentions(o)
                fs |= self.fields(o)
        return ps & self.raws, fs

    def may_throw(self, n, st):
        ts = self.throwing(n)
        if not ts:
            return ()
        if n.get('k') == 'call' and n.get('obj') is not None:
            o = strip(n['obj'])
            if o.get('k') == 'call' and o.get('op') in ('*', '->') and root(o) and root(o)[0] == 'this' or re.sub('^const ', '', (o.get('ty') or {}).get('cls') or '') in self.w.inner:
                return ()        # the inside of this object, whose needs it sees to itself
        ps, fs = self.over(n, st)
        part = set()
        for t in self.prog.targets(n) if n.get('k') == 'call' else ():
            if n.get('obj') is not None and (strip(n['obj']).get('k') == 'this' or root(n['obj']) == ('this', '*')):
                part |= self.w.partial.get(t.usr, set())
        d = {x for x in st.dirt if x[1] != id(n)}
        rel = frozenset()
        if (ps - st.vet) or {x[0] for x in d if x[2]} & fs:
            rel = frozenset(d)
        for t in ts:
            s2 = st._replace(dirt=frozenset(rel | {(('this', x), id(n), True) for x in part}), vet=frozenset([id(n)]))
            self.sure.setdefault(id(n), n)
            self.x.thr.add((t, s2))
        return ()

    def on_throw(self, n, typ, st):
        self.sure.setdefault(id(n), n)
        if not n.get('c'):
            return (st,)
        return (st._replace(vet=frozenset([id(n)])),)

    def on_catch(self, h, st):
        return (st._replace(caught=True, vet=frozenset()),)

    def noreturn(self, n, st):
        return


def mine(w, f):
    return f.body is not None and not f.d.get('dep') and f.file.startswith(REPO) and not (f.q or '').startswith('witness')


SETTINGS = ('execution_context',)       # what a Siril session is set to


def in_scope(f, g, inner):
    if not (belongs(f.file, g) and (g == 'lib' or f.cls in SETTINGS)):
        return False
    if f.cls in inner or f.d.get('const'):
        return False
    return not f.d.get('acc') if f.cls else not f.d.get('static')


def inner_classes(prog):
    """Classes which only make up the inside of another: what it owns through a handle."""
    out = set()
    for q, r in prog.rec_q.items():
        for x in getattr(r, 'fields', None) or []:
            m = HANDLE.match((x['ty'].get('cls') or ''))
            if m and m.group(1).strip() != q:
                out.add(m.group(1).strip())
    return out


def one(g):
    prog = load(g)
    w = World(prog)
    from ..expr import written_fields
    w.wf = written_fields(prog)
    fns = [f for f in prog.real_fns() if mine(w, f) and not f.d.get('ctor') and not f.d.get('dtor')]
    res, und = {}, {}
    for _ in range(4):
        before = {u: set(v) for u, v in w.partial.items()}
        for f in fns:
            if not (belongs(f.file, g) or belongs(f.file, 'lib') or belongs(f.file, 'utils')):
                continue
            R = Refuse(w, f)
            try:
                X = R.run(f, {NEW})
            except (Unsupported, RecursionError) as e:
                und[f.usr] = str(e)
                continue
            res[f.usr] = (f, R, X)
            if f.cls and f.d.get('acc'):
                w.partial[f.usr] = {r[1] for t, s in X.thr for r, i, o in s.dirt if r[0] == 'this' and r[1] != '*'}
        if before == w.partial:
            break
    out = []
    inner = w.inner
    for f in fns:
        if not in_scope(f, g, inner):
            continue
        if f.usr not in res:
            if w.th.esc.get(f.usr):
                out.append((f.at(f.body), f.q, None, und.get(f.usr, '')))
            continue
        F, R, X = res[f.usr]
        if not X.thr and not any(s.caught for s in X.ret):
            continue
        bad = {}
        for t, s in list(X.thr) + [('an exception that is caught there', s) for s in X.ret if s.caught]:
            for r, i, o in s.dirt:
                bad.setdefault(r, (i, t, s))
        if not bad:
            out.append((f.at(f.body), f.q, True, ''))
        for r, (i, t, s) in sorted(bad.items(), key=lambda x: repr(x[0])):
            n = R.sure.get(i)
            at = f.at(n) if n is not None else f.at(f.body)
            v = next(iter(s.vet), None)
            m = R.sure.get(v)
            out.append((at, f.q, None if R.guarded else False, '%s is written at %s before %s may be thrown at %s' % (r[1] if r[0] != 'p' else R.ids[r[1]]['n'], at, t, f.at(m) if m is not None else '?')))
    return g, out


def check(prop):
    ck = Check(prop, 'on every path on which an exception over a value handed in leaves a public operation, nothing of the object, of a shared setting or of an object passed in to be changed has been written',
               ['memory is not exhausted'])
    groups = ['lib'] + [a for a in apps() if a == 'gsiril']
    with Pool(2) as p:
        res = p.map(one, groups, chunksize=1)
    seen = {}
    for g, out in res:
        ck.count('programs')
        for at, q, ok, msg in out:
            k = (at, q)
            if k in seen and (seen[k][0] is False or ok is not False):
                continue
            seen[k] = (ok, msg)
    for (at, q), (ok, msg) in sorted(seen.items(), key=repr):
        ck.obligation('refused', at, ok, key='%s|%s' % (at.split(':')[0], q), msg='%s: %s' % (q, msg))
    ck.floor('refused', 10)
    return ck.finish()

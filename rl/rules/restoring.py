"""C16: what is changed for the time being is put back.

Three ways of changing something for a while are followed on every path, those
of exceptions included: the formatting state of a stream that belongs to the
caller, a value kept in a local variable to be written back, and objects whose
destructor writes back what their constructor took."""
import re
from collections import defaultdict
from multiprocessing import Pool
from .. import throws
from ..ir import walk, children, apps, load, belongs
from ..flow import Flow, Unsupported
from ..expr import strip, ASSIGN
from ..report import Check
from .naming import core

MANIP = {'hex': 'flags', 'oct': 'flags', 'dec': 'flags', 'fixed': 'flags', 'scientific': 'flags', 'skipws': 'flags', 'noskipws': 'flags',
         'boolalpha': 'flags', 'noboolalpha': 'flags', 'showpos': 'flags', 'noshowpos': 'flags', 'showbase': 'flags', 'noshowbase': 'flags',
         'showpoint': 'flags', 'noshowpoint': 'flags', 'uppercase': 'flags', 'nouppercase': 'flags', 'left': 'flags', 'right': 'flags',
         'internal': 'flags', 'unitbuf': 'flags', 'nounitbuf': 'flags', 'defaultfloat': 'flags',
         'setfill': 'fill', 'setprecision': 'precision', 'setbase': 'flags', 'setiosflags': 'flags', 'resetiosflags': 'flags', 'setw': 'width'}
SETTERS = {'flags': 'flags', 'setf': 'flags', 'unsetf': 'flags', 'fill': 'fill', 'precision': 'precision', 'exceptions': 'exceptions'}
CLEARS = {'noskipws', 'noboolalpha', 'noshowpos', 'noshowbase', 'noshowpoint', 'nouppercase', 'nounitbuf', 'unsetf'}
PASS = {'endl', 'flush', 'ends', 'ws'}
WHAT = {'flags': 'format flags', 'fill': 'fill character', 'precision': 'precision', 'width': 'field width', 'exceptions': 'exception mask'}


def is_stream(t):
    s = (t or {}).get('cls') or (t or {}).get('s') or ''
    return bool(re.search(r'\b(basic_[io]*stream|ios_base|basic_ios|[io]stream)\b', s)) and 'stringstream' not in s and 'fstream' not in s


def place(n, alias=None, local=False):
    """A text for an lvalue that outlives the call, rooted at this, a reference parameter or a global; or None."""
    n = core(n)
    for _ in range(12):
        if n is None:
            return None
        k = n.get('k')
        if k == 'this':
            return 'this'
        if k == 'var':
            if alias and n.get('id') in alias and n.get('dk') == 'local':
                n = core(alias[n['id']])
                continue
            if n.get('dk') == 'param':
                return 'p%s' % n.get('id')
            if n.get('dk') in ('global', 'static'):
                return 'g' + (n.get('q') or n.get('n'))
            return ('l%s' % n.get('id')) if local else None
        if k == 'field':
            b = place(n['b'], alias, local)
            return b and b + '.' + n['n']
        if k == 'un' and n['op'] == '*':
            n = core(n['c'][0])
            continue
        if k == 'call' and n.get('op') in ('*', '->') and n.get('obj') is not None:
            n = core(n['obj'])
            continue
        if k == 'call' and n.get('n') in ('back', 'front') and n.get('obj') is not None:
            b = place(n['obj'], alias, local)
            return b and b + '.' + n['n'] + '()'
        return None
    return None


def bare(name):
    return re.sub(r'^(set|get)_', '', name or '')


def aliases(f):
    out = {}
    for n in f.nodes():
        for v in (n.get('c') or [] if n.get('k') == 'decl' else []):
            t = v.get('ty') or {}
            if t.get('ref') and v.get('init') is not None:
                out[v['id']] = v['init']
    return out


class World:
    def __init__(self, prog):
        self.prog = prog
        self.th = throws.of(prog)
        self.sum = {}
        self.busy = set()
        self.rev = None
        self.guards = self.find_guards()

    # -- classes whose destructor writes back --------------------------------
    def find_guards(self):
        out = {}
        for f in self.prog.real_fns():
            if not f.d.get('dtor') or f.body is None:
                continue
            r = self.prog.rec_q.get(f.cls)
            if r is None:
                continue
            refs = {x['n'] for x in r.fields if x['ty'].get('ref') and not x['ty'].get('const')}
            vals = {x['n'] for x in r.fields if not x['ty'].get('ref') and not x['ty'].get('ptr')}
            if not refs or not vals:
                continue
            back = []                     # (ref member, name of what is written, value members in it, node)
            for n in f.nodes():
                k = n.get('k')
                if k == 'call' and n.get('obj') is not None and not n.get('mc'):
                    o = core(n['obj'])
                    if o is not None and o.get('k') == 'field' and o['n'] in refs:
                        if n.get('op') == '=':
                            back.append((o['n'], '', self.members(n['a'], vals), n))
                        elif n.get('op') is None:
                            back.append((o['n'], bare(n['n']), self.members(n.get('a') or [], vals), n))
                elif k == 'bin' and n['op'] == '=':
                    p = core(n['c'][0])
                    name = ''
                    if p is not None and p.get('k') == 'field' and core(p['b']).get('k') != 'this':
                        name, p = p['n'], core(p['b'])
                    if p is not None and p.get('k') == 'field' and p['n'] in refs:
                        back.append((p['n'], name, self.members([n['c'][1]], vals), n))
            if any(m for _, _, m, _ in back) or any(self.takes(f.cls, refs, vals, nm) for _, nm, _, _ in back if nm):
                out[f.cls] = (f, r, refs, vals, back)
        return out

    def takes(self, cls, refs, vals, name):
        """A constructor of cls keeps what it reads under this name from what it is given by reference."""
        for c in self.prog.real_fns():
            if c.cls != cls or not c.d.get('ctor') or c.body is None:
                continue
            pref = set()
            for i in c.inits:
                e = core(i['e']) if i.get('e') is not None else None
                if (i.get('field') or '').split('::')[-1] in refs and e is not None and e.get('k') == 'var':
                    pref.add(e['id'])
            for i in c.inits:
                if (i.get('field') or '').split('::')[-1] in vals and i.get('e') is not None and any(name in reads_of(i['e'], p) for p in pref):
                    return True
        return False

    def members(self, ns, vals):
        return {x['n'] for a in ns for x in walk(a) if x.get('k') == 'field' and x['n'] in vals and core(x['b']).get('k') == 'this'}

    # -- whether what an exception leaves behind is ever seen ----------------
    def survives(self, f, t):
        """Somebody other than main may catch t when it leaves f (a user of the library may)."""
        if self.rev is None:
            self.rev = defaultdict(set)
            self.tries = []
            self.main = any(h.n == 'main' for h in self.prog.real_fns())
            for h in self.prog.real_fns():
                for n in h.nodes():
                    if n.get('k') in ('call', 'ctor'):
                        for c in self.prog.targets(n):
                            self.rev[c.usr].add(h.usr)
                    elif n.get('k') == 'try':
                        self.tries.append((h, n))
        if not self.main or belongs(f.file, 'lib') or belongs(f.file, 'utils'):
            return True
        up, todo = {f.usr}, [f.usr]
        while todo:
            for c in self.rev.get(todo.pop(), ()):
                if c not in up:
                    up.add(c)
                    todo.append(c)
        for h, n in self.tries:
            if h.n == 'main' or not any(x.get('all') or t is None or self.th.is_a(t, x['ty'].get('cls') or x['ty'].get('s')) for x in n.get('h') or []):
                continue
            for x in walk(n['b']):
                if x.get('k') in ('call', 'ctor') and any(c.usr in up for c in self.prog.targets(x)):
                    return True
        return False

    # -- what a function leaves changed in the streams it was given ----------
    def left(self, f):
        """frozenset of (place, aspect, line) a call of f leaves changed."""
        if f.usr in self.sum:
            return self.sum[f.usr]
        if f.usr in self.busy or f.body is None:
            return frozenset()
        if not any(self.touches(f, n) for n in f.nodes()):
            self.sum[f.usr] = frozenset()
            return frozenset()
        self.busy.add(f.usr)
        w = Streams(self, f)
        try:
            X = w.run(f, {frozenset()})
            res = frozenset(x for st in X.ret for x in st if x[0] != 'guard')
            self.sum[f.usr] = res
            w.thrown = frozenset(x for _, st in X.thr for x in st if x[0] != 'guard')
        except Unsupported:
            res = None
            self.sum[f.usr] = frozenset()
            w.thrown = frozenset()
        self.busy.discard(f.usr)
        f_un = getattr(self, 'un', None)
        if f_un is None:
            self.un = {}
        self.un[f.usr] = (res is None, w.thrown)
        return self.sum[f.usr]

    def touches(self, f, n):
        k = n.get('k')
        if k == 'call' and (n.get('n') in MANIP or n.get('n') in SETTERS and n.get('a')) and (n.get('q') or '').startswith('std::'):
            return True
        if k == 'fref' and n.get('n') in MANIP and (n.get('q') or '').startswith('std::'):
            return True
        if k == 'call' and n.get('fn'):
            t = self.prog.fn(n['fn'])
            if t is not None and t.body is not None and not (t.q or '').startswith('std::') and t.usr != f.usr and \
                    (any(is_stream(p['ty']) for p in t.params) or t.cls and t.cls == f.cls):
                return bool(self.left(t))
        return False


class Streams(Flow):
    """State: frozenset of (place of the stream, aspect, line, only cleared)."""
    def __init__(self, w, f):
        super().__init__(w.prog)
        self.w, self.f = w, f
        self.alias = aliases(f)
        self.saved = {}
        r = self.prog.rec_q.get(f.cls or '')
        self.reff = {x['n'] for x in (r.fields if r is not None else []) if x['ty'].get('ref') and is_stream(x['ty'])}
        self.refp = {p['id'] for p in f.params if p['ty'].get('ref') and is_stream(p['ty'])}
        for n in f.nodes():
            for v in (n.get('c') or [] if n.get('k') == 'decl' else []):
                e = core(v['init']) if v.get('init') is not None else None
                if e is not None and e.get('k') == 'call' and e.get('n') in SETTERS and e.get('obj') is not None:
                    self.saved[v['id']] = (self.stream(e['obj']), SETTERS[e['n']])

    def stream(self, n):
        """The caller's stream this expression is, through << and >> and what returns its stream."""
        n = core(n)
        for _ in range(400):
            if n is None:
                return None
            k = n.get('k')
            if k == 'call' and n.get('op') in ('<<', '>>', '*', '->'):
                n = core(n['obj'] if n.get('obj') is not None else n['a'][0])
                continue
            if k == 'call' and n.get('n') in ('out_stream', 'flush', 'write', 'put', 'get', 'getline', 'read') and n.get('obj') is not None and n.get('op') is None:
                n = core(n['obj'])
                continue
            break
        p = place(n, self.alias)
        if p is None:
            return None
        m = re.match(r'^p(\d+)$', p)
        if m:
            return p if int(m.group(1)) in self.refp else None
        m = re.match(r'^this\.(\w+)$', p)
        if m:
            return p if m.group(1) in self.reff else None
        return None

    def add(self, st, s, asp, n, clears=False):
        if any(x[0] == s and x[1] == asp and not (x[3] and not clears) for x in st):
            return st
        return frozenset(x for x in st if not (x[0] == s and x[1] == asp)) | {(s, asp, self.f.at(n), clears)}

    def drop(self, st, s, asp):
        return frozenset(x for x in st if not (x[0] == s and x[1] == asp))

    def leaf(self, n, st):
        k = n.get('k')
        if k != 'call':
            return (st,)
        op = n.get('op')
        if op in ('<<', '>>') and (n.get('obj') is not None or len(n.get('a') or []) == 2):
            l = n['obj'] if n.get('obj') is not None else n['a'][0]
            r = n['a'][0] if n.get('obj') is not None else n['a'][1]
            s = self.stream(l)
            if s is None:
                return (st,)
            r = core(r)
            nm = r.get('n') if r is not None and r.get('k') in ('call', 'fref') and (r.get('q') or '').startswith('std::') else None
            if r is not None and r.get('k') == 'call' and nm == 'setfill' and self.is_saved(r['a'], s, 'fill'):
                return (self.drop(st, s, 'fill'),)
            if r is not None and r.get('k') == 'call' and nm == 'setprecision' and self.is_saved(r['a'], s, 'precision'):
                return (self.drop(st, s, 'precision'),)
            if nm in MANIP:
                return (self.add(st, s, MANIP[nm], n, nm in CLEARS),)
            if nm in PASS:
                return (st,)
            st = self.drop(st, s, 'width')
            return (self.callee(n, st),)
        if n.get('n') in SETTERS and n.get('obj') is not None and n.get('a') and (n.get('q') or '').startswith('std::'):
            s = self.stream(n['obj'])
            if s is None:
                return (st,)
            asp = SETTERS[n['n']]
            if self.is_saved(n['a'], s, asp):
                if n['n'] == 'setf' and any(x[0] == s and x[1] == asp and not x[3] for x in st):
                    return (st,)
                return (self.drop(st, s, asp),)
            return (self.add(st, s, asp, n, n['n'] in CLEARS),)
        if n.get('n') == 'copyfmt' and n.get('obj') is not None:
            s = self.stream(n['obj'])
            return (frozenset(x for x in st if x[0] != s),)
        if n.get('n') in MANIP and n.get('a') and len(n['a']) == 1 and (n.get('q') or '').startswith('std::'):
            s = self.stream(n['a'][0])
            if s is not None and MANIP[n['n']] == 'flags':
                return (self.add(st, s, 'flags', n, n['n'] in CLEARS),)
        return (self.callee(n, st),)

    def is_saved(self, args, s, asp):
        for a in args or []:
            x = core(a)
            if x is not None and x.get('k') == 'var' and self.saved.get(x.get('id')) == (s, asp):
                return True
        return False

    def callee(self, n, st):
        t = self.prog.fn(n.get('fn')) if n.get('fn') else None
        if t is None or t.body is None or t.usr == self.f.usr or (t.q or '').startswith('std::'):
            return st
        for s, asp, at, cl in self.w.left(t):
            if s.startswith('this.'):
                o = core(n['obj']) if n.get('obj') is not None else None
                if o is not None and o.get('k') == 'this' and t.cls == self.f.cls:
                    m = s
                else:
                    m = None
            else:
                i = [p['id'] for p in t.params].index(int(s[1:]))
                a = n.get('a') or []
                if n.get('obj') is not None and n.get('op') and len(a) < len(t.params):
                    a = [n['obj']] + list(a)
                m = self.stream(a[i]) if i < len(a) else None
            if m is not None and not any(x[0] == m and x[1] == asp for x in st):
                st = st | {(m, asp, at, cl)}
        return st

    def declare(self, v, st):
        g = self.w.guards.get((v.get('ty') or {}).get('cls') or '')
        e = core(v['init']) if v.get('init') is not None else None
        if g is not None and e is not None:
            for a in e.get('a') or []:
                s = self.stream(a)
                if s is None:
                    continue
                for ref, name, m, node in g[4]:
                    if node.get('n') in SETTERS and m:
                        st = st | {('guard', v['id'], s, SETTERS[node['n']], node['n'] == 'setf')}
                    if node.get('n') == 'copyfmt':
                        for asp in WHAT:
                            st = st | {('guard', v['id'], s, asp, False)}
        return (st,)

    def settle(self, st, ids=None):
        gs = [x for x in st if x[0] == 'guard' and (ids is None or x[1] in ids)]
        for _, i, s, asp, only in gs:
            st = frozenset(x for x in st if x[0] == 'guard' or not (x[0] == s and x[1] == asp and (x[3] or not only)))
        return frozenset(x for x in st if x not in gs)

    def leave(self, v, st):
        return (self.settle(st, {v['id']}),)

    def run(self, f, S):
        X = super().run(f, S)
        X.ret = {self.settle(st) for st in X.ret}
        X.thr = {(t, self.settle(st)) for t, st in X.thr}
        return X

    def may_throw(self, n, st):
        return list(self.w.th.node(self.f, n))


def entry(f):
    """Called by anyone: not a private or protected helper, nor one local to its file."""
    if f.cls:
        return f.d.get('acc', 0) in (0, None) or bool(f.d.get('virt'))
    return not f.d.get('internal')


def callers_in_own_hands(prog):
    out = defaultdict(set)
    for f in prog.real_fns():
        if f.body is None:
            continue
        for n in f.nodes():
            if n.get('k') == 'call' and n.get('fn'):
                out[n['fn']].add(f.usr)
    return out


def check_streams(w, g, out):
    w.un = {}
    for f in w.prog.real_fns():
        if f.body is None or not belongs(f.file, g) or f.q.startswith('witness'):
            continue
        ps = any(p['ty'].get('ref') and is_stream(p['ty']) for p in f.params)
        r = w.prog.rec_q.get(f.cls or '')
        fs = any(x['ty'].get('ref') and is_stream(x['ty']) for x in (r.fields if r is not None else []))
        if not (ps or fs) or not any(w.touches(f, n) for n in f.nodes()):
            continue
        left = w.left(f)
        un, thrown = w.un.get(f.usr, (False, frozenset()))
        if un:
            out.append(('stream', f.at(f.body), None, f.q, 'not followed'))
            continue
        if not entry(f) and not (f.cls in w.guards):
            out.append(('stream', f.at(f.body), True, f.q, ''))      # judged where it is called
            continue
        if f.cls in w.guards and (f.d.get('dtor') or f.d.get('ctor')):
            continue
        bad = sorted(left, key=repr) or sorted(thrown, key=repr)
        # a width that an exception leaves behind is that of output that failed
        bad = [x for x in bad if left or x[1] != 'width']
        if not bad:
            out.append(('stream', f.at(f.body), True, f.q, ''))
        for s, asp, at, _ in bad[:1]:
            out.append(('stream', at, False, '%s|%s' % (f.q, asp), '%s changes the %s of a stream that is not its own, and does not put it back%s' % (f.q, WHAT[asp], '' if left else ' when an exception leaves')))


# -- a value kept to be written back ------------------------------------------
class Kept(Flow):
    """State: places that differ from what was kept."""
    def __init__(self, w, f, saved, alias):
        super().__init__(w.prog)
        self.w, self.f, self.saved, self.alias = w, f, saved, alias
        self.rets = []
        self.active = None

    def effect(self, n):
        """[(place, restored?)] of what this node writes."""
        out = []
        k = n.get('k')
        if k == 'bin' and n['op'] in ASSIGN or k == 'call' and n.get('op') == '=' and (n.get('obj') is not None or len(n.get('a') or []) == 2):
            l, r = n['c'] if k == 'bin' else ((n['obj'], n['a'][0]) if n.get('obj') is not None else n['a'])
            p = place(l, self.alias)
            x = core(r)
            if p is not None:
                ok = x is not None and x.get('k') == 'var' and x.get('id') in self.saved and self.saved[x['id']][1] == p and (k == 'call' or n['op'] == '=')
                out.append((p, ok))
        elif k == 'un' and n['op'] in ('pre++', 'pre--', 'post++', 'post--'):
            p = place(n['c'][0], self.alias)
            if p is not None:
                out.append((p, False))
        elif k == 'call' and n.get('obj') is not None and n.get('op') is None and not n.get('mc'):
            o = place(n['obj'], self.alias)
            a = [x for x in n.get('a') or [] if not x.get('da')]
            if o is not None:
                if n['n'] in ('push_back', 'pop_back'):
                    x = core(a[0]) if a else None
                    p = o + '.back()'
                    out.append((p, n['n'] == 'push_back' and x is not None and x.get('k') == 'var' and x.get('id') in self.saved and self.saved[x['id']][1] == p))
                elif a:
                    x = core(a[0])
                    p = o + '.' + bare(n['n']) + '()'
                    out.append((p, x is not None and x.get('k') == 'var' and x.get('id') in self.saved and self.saved[x['id']][1] == p))
        return out

    def leaf(self, n, st):
        for p, ok in self.effect(n):
            if p in self.watch:
                st = st - {p} if ok or self.maybe(n, p) else st | {p}
        return (st,)

    def maybe(self, n, p):
        """What was kept is some part of what is written."""
        return any(x.get('k') == 'var' and x.get('id') in self.saved and self.saved[x['id']][1] == p for x in walk(n))

    def declare(self, v, st):
        s = self.saved.get(v['id'])
        if s is not None:
            st = (st - {s[1]}) | ({s[1]} if s[2] else frozenset())
        return (st,)

    def may_throw(self, n, st):
        return list(self.w.th.node(self.f, n))

    def on_return(self, n, st):
        self.rets.append((n, st))
        return (st,)


def has_getter(prog, e):
    """The class of the function called has one of the same name that only reads, and gives the same type."""
    t = prog.fn(e.get('fn')) if e.get('fn') else None
    return t is not None and any(h.n == t.n and h.cls == t.cls and not h.params and h.d.get('const') and (h.d.get('ret') or {}).get('s') == (t.d.get('ret') or {}).get('s') for h in prog.real_fns())


def keeping(prog, f, alias):
    """{local: (name, place kept, already changed)}"""
    saved = {}
    for n in f.nodes():
        for v in (n.get('c') or [] if n.get('k') == 'decl' else []):
            t = v.get('ty') or {}
            if t.get('ref') or t.get('ptr') or v.get('init') is None or v.get('static'):
                continue
            e = core(v['init'])
            if e is None:
                continue
            p = place(e, alias)
            if p is not None and re.match(r'^(this\.|g|p\d+\.)', p):
                saved[v['id']] = (v['n'], p, False)
            elif e.get('k') == 'call' and e.get('obj') is not None and e.get('op') is None:
                o = place(e['obj'], alias)
                a = [x for x in e.get('a') or [] if not x.get('da')]
                if o is not None and (not a and e.get('mc') or a and not e.get('mc') and (e['n'].startswith('set_') or has_getter(prog, e))):
                    saved[v['id']] = (v['n'], o + '.' + bare(e['n']) + '()', bool(a))
    return saved


def check_kept(w, g, out):
    for f in w.prog.real_fns():
        if f.body is None or not belongs(f.file, g) or f.q.startswith('witness') or f.d.get('ctor'):
            continue
        alias = aliases(f)
        saved = keeping(w.prog, f, alias)
        if not saved:
            continue
        k = Kept(w, f, saved, alias)
        k.watch = set()
        back, written = set(), set()
        for n in f.nodes():
            for p, ok in k.effect(n):
                (back if ok else written).add(p)
        k.watch = {p for p in back if any(s[1] == p for s in saved.values())}
        # kept, changed, and the copy never looked at again
        used = {x.get('id') for x in f.nodes() if x.get('k') == 'var' and x.get('dk') == 'local'}
        for i, (name, p, ch) in saved.items():
            if i not in used and (p in written or ch):
                out.append(('kept', f.at(f.body), False, '%s|%s' % (f.q, name), '%s keeps %s in %s and changes it, but does not put it back' % (f.q, p, name)))
        for n in f.nodes():
            for p, ok in k.effect(n):
                if ok:
                    continue
                x = core((n.get('a') or [None])[0]) if n.get('k') == 'call' and n.get('a') else core(n['c'][1]) if n.get('k') == 'bin' else None
                if x is not None and x.get('k') == 'var' and x.get('id') in saved and saved[x['id']][2] and saved[x['id']][1] != p and any(s[1] == p for s in saved.values()) and x.get('dk') == 'local':
                    out.append(('kept', f.at(n), False, '%s|%s' % (f.q, x['n']), '%s puts back to %s what it had kept from %s' % (f.q, p.split('.', 1)[-1], saved[x['id']][1].split('.', 1)[-1])))
        if not k.watch or not (k.watch & written or any(s[2] for s in saved.values())):
            continue
        try:
            X = k.run(f, {frozenset()})
        except Unsupported:
            out.append(('kept', f.at(f.body), None, f.q, 'not followed'))
            continue
        returned = [(n, st) for n, st in k.rets]
        falls = k.falls
        for p in sorted(k.watch):
            tidy = p.split('.', 1)[-1]
            thrown = any(p in st and w.survives(f, t) for t, st in X.thr)
            lines = [(n.get('l') or 0, p in st, n) for n, st in returned]
            last = max((l for l, _, _ in lines), default=None)
            end_bad = any(p in st for st in falls) if falls else any(b for l, b, _ in lines if l == last)
            early_bad = [n for l, b, n in lines if b and (falls or l != last)]
            if end_bad:
                out.append(('kept', f.at(f.body), None, '%s|%s' % (f.q, tidy), 'what was kept may be meant to be put back on some paths only'))
            elif early_bad:
                out.append(('kept', f.at(early_bad[0]), False, '%s|%s' % (f.q, tidy), '%s puts %s back at its end, but not when it returns here' % (f.q, tidy)))
            elif any(p in st for st in X.ret):
                out.append(('kept', f.at(f.body), False, '%s|%s' % (f.q, tidy), '%s does not put %s back on every path' % (f.q, tidy)))
            elif thrown:
                out.append(('kept', f.at(f.body), False, '%s|%s' % (f.q, tidy), '%s does not put %s back when an exception leaves it' % (f.q, tidy)))
            else:
                out.append(('kept', f.at(f.body), True, '%s|%s' % (f.q, tidy), ''))


# -- objects that write back ----------------------------------------------------
class Back(Flow):
    """State: (members written back, members looked at)."""
    def __init__(self, prog, back):
        super().__init__(prog)
        self.by = {id(n): m for _, _, m, n in back if m}

    def leaf(self, n, st):
        m = self.by.get(id(n))
        return ((st[0] | m, st[1]),) if m else (st,)

    def assume(self, n, truth, st):
        m = {x['n'] for x in walk(n) if x.get('k') == 'field' and core(x['b']).get('k') == 'this'}
        return ((st[0], st[1] | m),)


def reads_of(e, pid):
    """Names of what is read through the parameter in e."""
    out = set()
    for x in walk(e):
        if x.get('k') == 'call' and x.get('obj') is not None:
            o = core(x['obj'])
            if o is not None and o.get('k') == 'var' and o.get('id') == pid:
                out.add(bare(x['n']))
        if x.get('k') == 'field':
            o = core(x['b'])
            if o is not None and o.get('k') == 'var' and o.get('id') == pid:
                out.add(x['n'])
        if x.get('k') == 'var' and x.get('id') == pid and not out:
            out.add('')
    if len(out) > 1:
        out.discard('')
    return out


def check_guards(w, g, out):
    prog = w.prog
    info = {}
    for cls, (d, r, refs, vals, back) in w.guards.items():
        taken = {}                 # value member -> names it was taken from
        for c in prog.real_fns():
            if c.cls != cls or not c.d.get('ctor') or c.body is None:
                continue
            pref = {}
            for i in c.inits:
                fld = (i.get('field') or '').split('::')[-1]
                e = core(i['e']) if i.get('e') is not None else None
                if fld in refs and e is not None and e.get('k') == 'var':
                    pref[e['id']] = fld
            for i in c.inits:
                fld = (i.get('field') or '').split('::')[-1]
                if fld in vals and i.get('e') is not None:
                    for pid in pref:
                        for nm in reads_of(i['e'], pid):
                            taken.setdefault(fld, set()).add(nm)
            for n in c.nodes():
                l = None
                if n.get('k') == 'bin' and n['op'] == '=':
                    l, e = n['c']
                elif n.get('k') == 'call' and n.get('op') == '=' and n.get('obj') is not None:
                    l, e = n['obj'], n['a'][0]
                if l is not None:
                    x = core(l)
                    if x is not None and x.get('k') == 'field' and x['n'] in vals and core(x['b']).get('k') == 'this':
                        for pid in pref:
                            for nm in reads_of(e, pid):
                                taken.setdefault(x['n'], set()).add(nm)
                        for y in walk(e):
                            if y.get('k') == 'field' and y['n'] in refs and core(y['b']).get('k') == 'this':
                                taken.setdefault(x['n'], set()).add('?')
        if not taken:
            continue
        mine = belongs(d.file, g)
        names = {nm for _, nm, m, _ in back if m}
        info[cls] = (names, refs)
        if not mine:
            continue
        # each member taken is written back
        undo = {}
        for ref, nm, m, n in back:
            if nm and m and any(h.n == 'un' + nm and h.cls == (prog.fn(n['fn']).cls if prog.fn(n.get('fn')) is not None else None) for h in prog.real_fns()):
                undo['un' + nm] = m
        b = Back(prog, [(ref, nm, m2 | undo.get(n2.get('n'), set()), n2) for ref, nm, m2, n2 in back])
        try:
            X = b.run(d, {(frozenset(), frozenset())})
        except Unsupported:
            out.append(('guard', d.at(d.body), None, cls, 'not followed'))
            continue
        for m in sorted(taken):
            miss = [st for st in X.ret if m not in st[0]]
            never = not any(m in x for _, _, x, _ in back)
            strict = any(m in x for x in undo.values())
            ok = not miss or not never and not strict and all(st[1] & set(taken) for st in miss)
            if never and any(m in {x['n'] for x in walk(d.body) if x.get('k') == 'field'} for _ in (1,)):
                ok = None
            out.append(('guard', d.at(d.body), ok, '%s|%s' % (cls, m), '%s takes %s when it is made and does not write it back when it goes' % (cls, m)))
        # and to where it was taken from
        for ref, nm, ms, n in back:
            for m in ms:
                fr = taken.get(m)
                if not fr or '?' in fr or len(ms) > 1:
                    continue
                if nm in fr or bare(nm) in fr:
                    out.append(('guard', d.at(n), True, '%s|%s to %s' % (cls, m, nm), ''))
                elif any(nm in f2 for m2, f2 in taken.items() if m2 != m):
                    out.append(('guard', d.at(n), False, '%s|%s to %s' % (cls, m, nm), '%s writes to %s what was taken from %s' % (cls, nm, '/'.join(sorted(fr)))))
    # where they are made
    for f in prog.real_fns():
        if f.body is None or not belongs(f.file, g):
            continue
        alias = aliases(f)
        decl = set()
        made = []
        for n in f.nodes():
            for v in (n.get('c') or [] if n.get('k') == 'decl' else []):
                c = (v.get('ty') or {}).get('cls')
                if c in w.guards and v.get('init') is not None and not (v.get('ty') or {}).get('ref'):
                    e = core(v['init'])
                    decl.add(id(e))
                    decl |= {id(x) for x in walk(v['init'])}
                    made.append((c, v, e))
        for n in f.nodes():
            if n.get('k') == 'block':
                for s in n.get('c') or []:
                    e = core(s)
                    if e is not None and e.get('k') == 'ctor' and e.get('q') in w.guards and id(e) not in decl and not (f.cls == e.get('q')):
                        out.append(('guard', f.at(e), False, '%s|temporary %s' % (f.q, e['q']), '%s in %s goes at once: it puts back nothing of what follows' % (e['q'], f.q)))
        for c, v, e in made:
            key = '%s|%s' % (f.q, c)
            out.append(('guard', f.at(e) if e.get('l') else f.at(f.body), True, key, ''))
            if c not in info or not e.get('a'):
                continue
            names, refs = info[c]
            objs = {place(a, alias, True) for a in e['a']} - {None}
            line = e.get('l') or v.get('l') or 0
            first = before(f, v)
            for n in f.nodes():
                if n.get('k') != 'call' or n.get('obj') is None or n.get('mc') or n.get('op') is not None:
                    continue
                a = [x for x in n.get('a') or [] if not x.get('da')]
                if len(a) != 1 or place(n['obj'], alias, True) not in objs:
                    continue
                nm = bare(n['n'])
                if id(n) in first:
                    if nm in names:
                        out.append(('guard', f.at(n), False, '%s|%s %s' % (f.q, c, nm), '%s sets %s before %s takes what it is to put back' % (f.q, nm, c)))
                    continue
                if (n.get('l') or 0) <= line:
                    continue
                cls = (core(n['obj']).get('ty') or {}).get('cls')
                getter = any(h.cls and h.n in (nm, 'get_' + nm) and not h.params and (prog.fn(n['fn']) is not None and h.cls == prog.fn(n['fn']).cls) for h in prog.fns_named(nm)) if hasattr(prog, 'fns_named') else \
                    any(h.n in (nm, 'get_' + nm) and not h.params and prog.fn(n['fn']) is not None and h.cls == prog.fn(n['fn']).cls for h in prog.real_fns())
                if not getter:
                    continue
                out.append(('guard', f.at(n), nm in names, '%s|%s %s' % (f.q, c, nm), '%s sets %s for the time being, which %s does not put back' % (f.q, nm, c)))


def before(f, v):
    """Calls that stand as statements before the declaration of v, in its own block."""
    out = set()
    for n in f.nodes():
        if n.get('k') != 'block':
            continue
        for i, s in enumerate(n.get('c') or []):
            if s is not None and s.get('k') == 'decl' and any(x.get('id') == v['id'] for x in s.get('c') or []):
                for t in n['c'][:i]:
                    t = core(t)
                    if t is not None and t.get('k') == 'call':
                        out.add(id(t))
    return out


def one(g):
    prog = load(g)
    w = World(prog)
    out = []
    check_streams(w, g, out)
    check_kept(w, g, out)
    check_guards(w, g, out)
    return g, out


def check(prop):
    ck = Check(prop, 'streams of others whose format is changed, values kept in locals to be put back, and objects that put back what they took: on every path out, exceptions included, what was changed is as it was',
               [])
    groups = ['lib', 'utils'] + list(apps())
    with Pool(6) as p:
        res = p.map(one, groups, chunksize=1)
    seen = {}
    for g, out in res:
        ck.count('programs')
        for clause, at, ok, k, msg in out:
            kk = (clause, k, at)
            if kk in seen and (seen[kk][0] is False or ok is not False):
                continue
            seen[kk] = (ok, msg)
    for (clause, k, at), (ok, msg) in sorted(seen.items(), key=repr):
        ck.obligation(clause, at, ok, key=k, msg=msg)
    ck.floor('stream', 4)
    ck.floor('guard', 4)
    return ck.finish()

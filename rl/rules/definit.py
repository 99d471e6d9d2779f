"""No object and no local variable is ever read before it has a value."""
from .. import ir
from ..expr import Canon
from ..flow import Flow, Unsupported
from ..ir import children, walk
from ..report import Check


def is_this(n):
    while n is not None and n.get('k') in ('cast', 'icast') and n.get('c'):
        n = n['c'][0]
    if n is None:
        return False
    if n.get('k') == 'this':
        return True
    return n.get('k') == 'un' and n['op'] == '*' and is_this(n['c'][0])


def this_field(n):
    return n.get('k') == 'field' and is_this(n.get('b'))


def scalar(ty):
    if ty.get('ref'):
        return False
    if ty.get('arr'):
        pt = ty.get('pt') or {}
        return scalar(pt) if isinstance(pt, dict) else False
    if ty.get('cls') and not ty.get('ptr'):
        return False
    return bool(ty.get('ptr') or ty.get('int') or ty.get('b') or ty.get('enum') or ty.get('flt'))


def read_members(prog):
    """(record, member) pairs whose value some function of the program uses
    (plain assignment and passing the address as an out-parameter are not uses)."""
    out = set()
    for fn in prog.real_fns():
        par = None
        for n in fn.nodes():
            if n.get('k') != 'field':
                continue
            if par is None:
                par = fn.parents()
            key = (n['rec'], n['n'])
            if key in out:
                continue
            p = par.get(id(n))
            if p is not None and p.get('k') == 'bin' and p['op'] == '=' and p['c'][0] is n:
                continue
            if p is not None and p.get('k') == 'un' and p['op'] == '&':
                continue
            out.add(key)
    return out


def static_only(prog, rec):
    """The class is only ever default-constructed as an object of static
    storage duration (which is zeroed first)."""
    any_ = False
    for g in prog.globals.values():
        if (g['ty'] or {}).get('cls') == rec.q:
            any_ = True
    for r in prog.recs.values():
        for m in r.get('statics', []) or []:
            pass
    for fn in prog.real_fns():
        for n in fn.nodes():
            if n.get('k') == 'ctor' and n.get('q') == rec.q and n.get('ck') == 'default':
                return False
        for i in fn.inits:
            pass
    return any_


class Facts:
    """Which records leave scalar members indeterminate when default-initialised
    without any user-written constructor."""

    def __init__(self, prog):
        self.prog = prog
        self.memo = {}

    def raw(self, q):
        """Member paths left indeterminate by the *implicit* default
        constructor of record q."""
        if q in self.memo:
            return self.memo[q]
        self.memo[q] = []
        r = self.prog.rec_q.get(q)
        out = []
        if r is not None and r.mine and not r.get('dep'):
            user = any(m.get('ctor') == 'default' and m.get('user') for m in r.methods)
            if not user:
                for f in r.fields:
                    if f.get('dinit'):
                        continue
                    if scalar(f['ty']):
                        out.append(f['n'])
                    elif f['ty'].get('cls') and not f['ty'].get('ref') and not f['ty'].get('ptr'):
                        for x in self.raw(f['ty']['cls']):
                            out.append(f['n'] + '.' + x)
                for b in r.bases:
                    for x in self.raw(b.get('q')):
                        out.append(x)
        self.memo[q] = out
        return out


def write_targets(fn):
    """ids of field/var nodes that are written, have their address taken or are
    bound to a non-const reference rather than read."""
    par = fn.parents()
    out = set()

    def mark(n):
        while n is not None:
            out.add(id(n))
            if n.get('k') in ('idx',):
                n = n['c'][0]
            elif n.get('k') in ('cast', 'icast'):
                n = n['c'][0]
            elif n.get('k') == 'cond':
                mark(n['c'][1]); n = n['c'][2]
            else:
                break
    for n in fn.nodes():
        k = n.get('k')
        if k == 'bin' and n['op'] == '=':
            mark(n['c'][0])
        elif k == 'un' and n['op'] == '&':
            mark(n['c'][0])
        elif k in ('call', 'ctor'):
            args = n.get('a', [])
            pts = n.get('pt', [])
            for i, a in enumerate(args):
                pt = pts[i] if i < len(pts) else None
                if isinstance(pt, dict) and pt.get('ref') and not pt.get('const'):
                    mark(a)
                elif isinstance(pt, dict) and pt.get('ref') and k == 'ctor':
                    mark(a)      # stores a reference
                elif isinstance(pt, dict) and pt.get('ptr') and a.get('ty', {}).get('arr'):
                    mark(a)
                elif pt is None and k == 'call':
                    mark(a)      # unknown callee / varargs
            o = n.get('obj')
            if k == 'call' and o is not None and (o.get('ty') or {}).get('arr'):
                mark(o)
        elif k == 'decl':
            for v in n.get('c', []):
                if v['ty'].get('ref') and v.get('init'):
                    mark(v['init'])
        elif k == 'ret':
            pass
        elif k == 'init':
            pass
    return out


class CtorFlow(Flow):
    """State: frozenset of assigned member names (must, path-sensitive)."""

    def __init__(self, prog, rec, facts, reads, depth=0, stack=()):
        super().__init__(prog)
        self.rec = rec
        self.facts = facts
        self.reads = reads          # list collecting (fn, node, field)
        self.stack = stack
        self.escaped = False
        self.in_inits = True
        self.scal = {f['n'] for f in rec.fields if scalar(f['ty'])}
        self.allf = {f['n'] for f in rec.fields}
        self.objs = {f['n'] for f in rec.fields if f['ty'].get('cls') and not f['ty'].get('ptr') and not f['ty'].get('ref')}
        self.building = 0           # inside the top constructor's member initialisers
        self.early = []             # (fn, node, field): members used before their constructor has run
        self.wt = {}

    def wts(self):
        return self.cur_wt

    def enter(self, fn, S):
        save = getattr(self, 'cur_wt', None), getattr(self, 'fn', None)
        self.cur_wt = write_targets(fn)
        self.fn = fn
        try:
            return self.run(fn, S)
        finally:
            self.cur_wt, self.fn = save

    def init(self, fn, i, S):
        if i.get('deleg'):
            e = i.get('e') or {}
            t = self.prog.fn(e.get('fn'))
            for a in e.get('a', []):
                S = self.ev(a, S)
            if t is not None and t.body is not None and t.usr not in self.stack:
                self.stack += (t.usr,)
                X = self.enter(t, S)
                self.stack = self.stack[:-1]
                return X.ret
            return {s | frozenset(self.allf) for s in S}
        e = i.get('e')
        name = i.get('field')
        top = len(self.stack) <= 1
        self.building += top
        try:
            S = self.ev(e, S)
        finally:
            self.building -= top
        if name:
            if e is None:
                return S
            x = e
            if x.get('k') == 'ctor' and x.get('impl') and x.get('ck') == 'default' and not x.get('zero'):
                raw = self.facts.raw(x.get('q'))
                if raw:
                    # leaves parts of the member indeterminate
                    return {s | frozenset([name]) | frozenset() for s in S} if not raw else \
                           {s | frozenset([name + '?']) for s in S}
            return {s | frozenset([name]) for s in S}
        return S

    def leaf(self, n, st):
        k = n.get('k')
        if k == 'field' and is_this(n.get('b')) and n['rec'] == self.rec.q:
            name = n['n']
            if self.building and name in self.objs and name not in st and name + '?' not in st and len(self.stack) > 1:
                self.early.append((self.fn, n, name))
            if id(n) in self.cur_wt:
                # written or bound: '=' assigns below, everything else counts as assigned
                return (st | {name},)
            if name in self.scal and name not in st:
                self.reads.append((self.fn, n, name))
                return (st | {name},)
            if name + '?' in st and name not in st:
                # a sub-object access: assume it initialises it
                return (st | {name},)
            return (st,)
        if k == 'call':
            o = n.get('obj')
            if self.building and len(self.stack) <= 1 and o is not None and this_field(o) and not n.get('arrow') and o['n'] in self.objs \
                    and o['n'] not in st and o['n'] + '?' not in st and o['rec'] == self.rec.q:
                self.early.append((self.fn, o, o['n']))
            if o is not None and is_this(o):
                for t in self._tg(n):
                    if t.cls == self.rec.q:
                        if t.usr in self.stack or len(self.stack) > 8:
                            return (st,)
                        self.stack += (t.usr,)
                        sub = self.enter(t, {st})
                        self.stack = self.stack[:-1]
                        return tuple(sub.ret)
            for a in n.get('a', []):
                if is_this(a):
                    self.escaped = True
        if k == 'ctor':
            for a in n.get('a', []):
                if is_this(a):
                    pass
        if k == 'lambda':
            for c in n.get('caps', []):
                if c.get('this'):
                    self.escaped = True
        return (st,)

    def _tg(self, n):
        t = self.prog.fn(n.get('fn'))
        return [t] if t is not None and t.body is not None else []


class LocalFlow(Flow):
    """State: frozenset of local ids that are declared but have no value yet."""

    def __init__(self, prog, fn):
        super().__init__(prog)
        self.fn = fn
        self.wt = write_targets(fn)
        self.hits = {}

    def declare(self, v, st):
        if v.get('static'):
            return (st,)
        if v.get('init') is None and scalar(v['ty']) and not v['ty'].get('arr'):
            return (st | {v['id']},)
        return (st - {v['id']},)

    def leaf(self, n, st):
        if n.get('k') == 'var' and n.get('dk') == 'local' and n.get('id') in st:
            if id(n) in self.wt:
                return (st - {n['id']},)
            self.hits[n['id']] = n
            return (st - {n['id']},)
        if n.get('k') == 'lambda':
            caps = {c.get('id') for c in n.get('caps', []) if c.get('ref')}
            return (st - caps,)
        return (st,)

    # correlate a flag variable with nothing: path-insensitive about values,
    # so only a read that is uninitialised whenever it is reached is reported
    # (see `always`).


class AlwaysFlow(LocalFlow):
    """As LocalFlow but counts, per read, in how many of the reaching states
    the variable has a value."""

    def __init__(self, prog, fn):
        super().__init__(prog, fn)
        self.good = set()

    def leaf(self, n, st):
        if n.get('k') == 'var' and n.get('dk') == 'local' and id(n) not in self.wt and n.get('id') not in st:
            self.good.add(id(n))
        return super().leaf(n, st)


class PathFlow(Flow):
    """The same, followed path by path: a state remembers which way the tests
    it has passed went, so that a path that would need one test to go both ways
    is dropped.  Loops are taken to go round at least once, and a switch without
    a default to have a case for every value, so that what is left is a path the
    tests themselves allow."""

    def __init__(self, prog, fn, only):
        super().__init__(prog)
        self.fn = fn
        self.only = only
        self.wt = write_targets(fn)
        self.canon = Canon(prog, fn, inline=False)
        self.hits = {}
        self.texts = {}

    def declare(self, v, st):
        if v['id'] not in self.only:
            return self.forget(('local', v['id']), st)
        U, F = st
        return ((U | {v['id']}, F),)

    def forget(self, vid, st):
        U, F = st
        if F:
            F = frozenset(f for f in F if vid not in f[2])
        return ((U, F),)

    def leaf(self, n, st):
        U, F = st
        k = n.get('k')
        if k == 'var' and n.get('dk') in ('local', 'param'):
            i = n.get('id')
            if n['dk'] == 'local' and i in U:
                if id(n) not in self.wt:
                    self.hits.setdefault(i, n)
                return ((U - {i}, F),)
            if id(n) in self.wt:
                return self.forget((n['dk'], i), st)
            return (st,)
        if k == 'lambda':
            return ((U - {c.get('id') for c in n.get('caps', []) if c.get('ref')}, F),)
        if k == 'un' and n.get('op') in ('pre++', 'post++', 'pre--', 'post--') or k == 'bin' and n['op'].endswith('=') \
                and n['op'] not in ('==', '!=', '<=', '>='):
            x = n['c'][0]
            while x is not None and x.get('k') in ('icast', 'cast', 'idx', 'field'):
                x = (x.get('c') or [x.get('b')])[0]
            if x is not None and x.get('k') == 'var' and x.get('dk') in ('local', 'param'):
                return self.forget((x['dk'], x.get('id')), st)
            return ((U, frozenset(f for f in F if not f[3])),)
        if k == 'call' and F and not n.get('mc'):
            # whatever the call may change
            gone = set()
            pts = n.get('pt') or []
            for i, a in enumerate([n.get('obj')] + list(n.get('a') or [])):
                pt = pts[i - 1] if 0 < i <= len(pts) else None
                if isinstance(pt, dict) and (pt.get('const') or not pt.get('ref') and not pt.get('ptr')):
                    continue
                for x in walk(a) if a is not None else ():
                    if x.get('k') == 'var' and x.get('dk') in ('local', 'param') and not (x.get('ty') or {}).get('int'):
                        gone.add((x['dk'], x.get('id')))
            F = frozenset(f for f in F if not f[3] and not (f[2] & gone))
            return ((U, F),)
        return (st,)

    def key(self, n):
        t = self.texts.get(id(n))
        if t is None:
            ids, glob, ok = set(), False, True
            for x in walk(n):
                k = x.get('k')
                if k == 'var':
                    if x.get('dk') in ('local', 'param'):
                        ids.add((x['dk'], x.get('id')))
                    else:
                        glob = True
                elif k == 'call':
                    glob = glob or x.get('obj') is None
                    if not x.get('mc') and not (x.get('op') in ('==', '!=', '<', '>', '<=', '>=', '!', '[]', '*')):
                        ok = False
                elif k == 'this':
                    glob = True
                elif k == 'un' and x.get('op') in ('pre++', 'post++', 'pre--', 'post--') or \
                        k == 'bin' and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>='):
                    ok = False
            try:
                txt = self.canon.text(n) if ok else None
            except Exception:
                txt = None
            neg = False
            if txt is not None and n.get('k') == 'bin' and n.get('op') in ('==', '!='):
                a, b = sorted((self.canon.text(n['c'][0]), self.canon.text(n['c'][1])))
                txt, neg = '%s==%s' % (a, b), n['op'] == '!='
            t = self.texts[id(n)] = (txt, frozenset(ids), glob, neg)
        return t

    def assume(self, n, truth, st):
        U, F = st
        if not U:
            return ((U, frozenset()),)
        x = n
        while x is not None and x.get('k') in ('icast', 'cast', 'paren') and x.get('c'):
            x = x['c'][0]
        if x.get('k') in ('int', 'bool'):
            return (st,) if bool(x.get('v')) == truth else ()
        txt, ids, glob, neg = self.key(x)
        if txt is None:
            return (st,)
        v = truth != neg
        for f in F:
            if f[0] == txt:
                return (st,) if f[1] == v else ()
        if len(F) >= 10:
            return (st,)
        return ((U, F | {(txt, v, ids, glob)}),)

    def assume_case(self, cond, case, st):
        return () if case.get('k') == 'nodefault' else (st,)

    def _once(self, n, S, run):
        real = self.condev
        first = [True]
        c = n.get('cond')

        def condev(m, W):
            T, F = real(m, W)
            if m is c and first[0]:
                first[0] = False
                # the first test: the loop is entered (unless nothing would enter it)
                if T:
                    F = {f for f in F if not f[0]}
            return T, F
        self.condev = condev
        try:
            return run(n, S)
        finally:
            self.condev = real

    def s_while(self, n, S):
        return self._once(n, S, super().s_while)

    def s_for(self, n, S):
        if n.get('cond') is None:
            return super().s_for(n, S)
        return self._once(n, S, super().s_for)

    def s_rfor(self, n, S):
        first = [True]
        real = self._loop

        def loop(S, step):
            def step1(W):
                T, F = step(W)
                if first[0]:
                    first[0] = False
                    F = {f for f in F if not f[0]}
                return T, F
            return real(S, step1)
        self._loop = loop
        try:
            return super().s_rfor(n, S)
        finally:
            self._loop = real


class Whole:
    """Objects of classes without a constructor, declared without a value and
    filled in part by part: the parts given a value on every path (a structural
    walk, loops entered once, switches read generously) when the object is copied
    or handed on as a whole."""

    def __init__(self, prog, facts, used):
        self.prog, self.facts, self.used = prog, facts, used
        self.sums, self.lv, self.gd = {}, {}, None

    def leaves(self, q):
        if q not in self.lv:
            self.lv[q] = set()
            rec = self.prog.rec_q.get(q)
            out = set()
            if rec is not None and not rec.get('union') and self.facts.raw(q):
                for b in rec.bases:
                    out |= self.leaves(b.get('q'))
                for f in rec.fields:
                    ty = f['ty']
                    if not f['n'] or f.get('dinit') or ty.get('arr'):
                        continue
                    if scalar(ty):
                        if (rec.q, f['n']) in self.used and not self.guarded(rec, f['n']):
                            out.add((f['n'],))
                    elif ty.get('cls') and not ty.get('ptr') and not ty.get('ref'):
                        out |= {(f['n'],) + x for x in self.leaves(ty['cls'])}
            self.lv[q] = out
        return self.lv[q]

    def guarded(self, rec, name):
        """Every place that reads the member has first looked at another member
        of the same class, which says whether this one means anything."""
        if self.gd is None:
            self.gd = {}
            for fn in self.prog.real_fns():
                par = None
                for n in fn.nodes():
                    if n.get('k') != 'field':
                        continue
                    par = par or fn.parents()
                    p, c, g = par.get(id(n)), n, set()
                    if p is not None and p.get('k') == 'bin' and p['op'] == '=' and p['c'][0] is n:
                        continue
                    while p is not None:
                        t = None
                        if p.get('k') == 'if' and p.get('cond') is not c:
                            t, side = p.get('cond'), p.get('then') is c
                        elif p.get('k') == 'cond' and p['c'][0] is not c:
                            t, side = p['c'][0], p['c'][1] is c
                        elif p.get('k') == 'bin' and p['op'] in ('&&', '||') and p['c'][1] is c:
                            t, side = p['c'][0], p['op'] == '&&'
                        if t is not None:
                            while t.get('k') in ('cast', 'icast', 'paren') and t.get('c') or t.get('k') == 'un' and t['op'] == '!':
                                side ^= t.get('k') == 'un'
                                t = t['c'][0]
                            g |= {(x['rec'], x['n'], side) for x in walk(t) if x.get('k') == 'field'}
                        c, p = p, par.get(id(p))
                    k = (n['rec'], n['n'])
                    self.gd[k] = g if k not in self.gd else self.gd[k] & g
        others = {(rec.q, f['n']) for f in rec.fields if f['n'] != name}
        return any(x[:2] in others for x in self.gd.get((rec.q, name), ()))

    def path(self, n):
        """(variable id or 'this', member names) for an object expression"""
        names = []
        while n is not None:
            k = n.get('k')
            if k in ('cast', 'icast', 'paren') and n.get('c'):
                n = n['c'][0]
            elif k == 'field':
                names.append(n['n'])
                n = n.get('b')
                if n is None:
                    return 'this', tuple(reversed(names))
            elif k == 'un' and n['op'] == '*' and n['c'][0].get('k') == 'this' or k == 'this':
                return 'this', tuple(reversed(names))
            elif k == 'var' and n.get('dk') != 'param':
                return n.get('id'), tuple(reversed(names))
            else:
                return None
        return None

    def run(self, fn, this=None):
        """members of this given a value on every way through fn"""
        self.fn, self.vars, self.hits, self.exits, self.seen = fn, {}, [], [], 0
        if this is not None:
            self.vars['this'] = this
        r = self.stmt(fn.body, set())
        outs = self.exits + ([r] if r is not None else [])
        if not outs:
            return None
        return set.intersection(*outs)

    def need(self, p):
        return {x for x in self.leaves(self.vars[p[0]]) if x[:len(p[1])] == p[1]}

    def fill(self, p, st):
        st |= {(p[0], x) for x in self.need(p)}

    def summary(self, usr, q):
        k = usr, q
        if k not in self.sums:
            self.sums[k] = None
            g = self.prog.fn(usr)
            if g is not None and g.body is not None:
                w = Whole(self.prog, self.facts, self.used)
                w.sums, w.lv, w.gd = self.sums, self.lv, self.gd
                r = w.run(g, q)
                self.gd = w.gd
                self.sums[k] = None if r is None else {x for v, x in r if v == 'this'}
        return self.sums[k]

    def use(self, n, st):
        p = self.path(n)
        if p is None or p[0] not in self.vars or p[0] == 'this':
            return
        need = self.need(p)
        if not need:
            return
        self.seen += 1
        miss = sorted(x for x in need if (p[0], x) not in st)
        if miss:
            self.hits.append((n, p[0], '.'.join(miss[0])))

    def expr(self, n, st):
        if n is None:
            return
        k = n.get('k')
        if k == 'lambda':
            return
        if k == 'cond' or k == 'bin' and n['op'] in ('&&', '||'):
            self.expr(n['c'][0], st)
            for x in n['c'][1:]:
                t = set(st)
                self.expr(x, t)
            return
        if k == 'bin' and n['op'] == '=' or k == 'call' and n.get('op') == '=':
            xs = n.get('c') or [x for x in [n.get('obj')] + (n.get('a') or []) if x is not None]
            if len(xs) == 2:
                self.expr(xs[1], st)
                self.use(xs[1], st)
                p = self.path(xs[0])
                if p is None:
                    self.expr(xs[0], st)
                elif p[0] in self.vars:
                    self.fill(p, st)
                return
        if k in ('ctor', 'call', 'new'):
            for c in children(n):
                self.expr(c, st)
            args = n.get('a') or []
            for i, a in enumerate(args):
                p = self.path(a)
                if p is not None and p[0] in self.vars:
                    g = self.prog.fn(n['fn']) if n.get('fn') else None
                    ty = g.params[i]['ty'] if g is not None and i < len(g.params) else (n.get('pt') or [None] * 9)[i] if i < len(n.get('pt') or []) else None
                    ty = ty or {}
                    if k == 'ctor' and n.get('ck') in ('copy', 'move') or not ty.get('ref') or ty.get('const') or ty.get('cref'):
                        self.use(a, st)
                    self.fill(p, st)
            o = n.get('obj')
            p = self.path(o) if o is not None else None
            if p is None and k == 'call' and o is None and n.get('rec') and 'this' in self.vars and n.get('mem'):
                p = 'this', ()
            if p is not None and p[0] in self.vars and not n.get('mc'):
                cls = n.get('rec')
                s = self.summary(n['fn'], cls) if cls and n.get('fn') and self.prog.fn(n['fn']) is not None else None
                if s is None:
                    self.fill(p, st)
                else:
                    st |= {(p[0], p[1] + x) for x in s}
            return
        if k == 'un' and n['op'] == '&':
            p = self.path(n['c'][0])
            if p is not None and p[0] in self.vars:
                self.fill(p, st)
            return
        for c in children(n):
            self.expr(c, st)

    def stmt(self, s, st):
        if s is None or st is None:
            return st
        k = s.get('k')
        if k == 'block':
            for c in s.get('c') or []:
                st = self.stmt(c, st)
            return st
        if k == 'if':
            self.expr(s.get('cond'), st)
            a = self.stmt(s.get('then'), set(st))
            b = self.stmt(s.get('els'), set(st))
            return b if a is None else a if b is None else a & b
        if k == 'ret':
            self.expr(s.get('e'), st)
            if s.get('e') is not None:
                self.use(s['e'], st)
            self.exits.append(set(st))
            return None
        if k == 'throw':
            return None
        if k in ('break', 'continue'):
            return st
        if k == 'decl':
            for v in s.get('c') or []:
                i = v.get('init')
                ty = v['ty']
                bare = i is None or i.get('k') == 'ctor' and i.get('impl') and i.get('ck') == 'default' and not i.get('zero')
                if bare and not v.get('static') and ty.get('cls') and not ty.get('ptr') and not ty.get('ref') \
                        and not ty.get('arr') and self.leaves(ty['cls']):
                    self.vars[v['id']] = ty['cls']
                    st = {x for x in st if x[0] != v['id']}
                elif i is not None:
                    self.expr(i, st)
                    p = self.path(i)
                    if p is not None and p[0] in self.vars:
                        if ty.get('ref'):
                            self.fill(p, st)
                        else:
                            self.use(i, st)
            return st
        if k in ('while', 'for', 'rfor', 'do'):
            for key in ('init', 'cond', 'range', 'b', 'inc'):
                x = s.get(key)
                if x is not None:
                    r = self.stmt(x, set(st))
                    st = st if r is None else st | r
            return st
        if k in ('switch', 'case', 'default', 'try', 'label'):
            out = set(st)
            for c in children(s):
                r = self.stmt(c, set(out))
                if r is not None:
                    out |= r
            return out
        st = set(st)
        e = s.get('e') if k == 'expr' and s.get('e') is not None else s
        self.expr(e, st)
        return st


def check(prop):
    C = Check(prop, 'Definite assignment: every constructor of every class leaves each scalar member (int, bool, '
              'enum, pointer, float; also inside member structs without a constructor) assigned on every path that '
              'completes, following member functions it calls; no member is read before that point in '
              'initialisation order; no scalar local is read on a path where it has never been given a value; an object '
              'of a class without a constructor has a value in every part when it is copied or handed on.',
              ['passing a variable by non-const reference or address counts as giving it a value',
               'a constructor that hands *this to other code is left undecided for members it does not set itself'])
    for prog, fns in ir.everywhere():
        facts = Facts(prog)
        used = read_members(prog)
        whole = Whole(prog, facts, used)
        for fn in fns:
            if fn.get('dep'):
                continue
            C.count('functions')
            # locals
            try:
                lf = AlwaysFlow(prog, fn)
                lf.run(fn, {frozenset()})
                ndecl = sum(1 for n in fn.nodes() if n.get('k') == 'decl' for v in n['c']
                            if v.get('init') is None and scalar(v['ty']) and not v['ty'].get('arr') and not v.get('static'))
                for i in range(ndecl - len(lf.hits)):
                    C.obligation('local-has-value', fn.at(), True)
                for vid, n in lf.hits.items():
                    if id(n) in lf.good:
                        pf = PathFlow(prog, fn, set(lf.hits))
                        try:
                            pf.run(fn, {(frozenset(), frozenset())})
                            m = pf.hits.get(vid)
                        except Unsupported:
                            m = None
                        C.obligation('local-has-value', fn.at(m or n), False if m else None, '%s:%s' % (fn.sig(), n['n']),
                                     'local variable "%s" is read in %s on a path on which it was given no value' % (n['n'], fn.q)
                                     if m else '%s: %s has a value on some paths only' % (fn.q, n['n']))
                    else:
                        C.obligation('local-has-value', fn.at(n), False, '%s:%s' % (fn.sig(), n['n']),
                                     'local variable "%s" is read before it is given a value in %s' % (n['n'], fn.q))
            except Unsupported as e:
                C.obligation('local-has-value', fn.at(), None, msg='%s (%s)' % (fn.q, e))
            if fn.get('ctor') and not fn.get('dflt') and not fn.get('del'):
                rec = prog.rec_q.get(fn.cls)
                if rec is None or rec.get('union'):
                    continue
                copying = fn.get('ctor') in ('copy', 'move')
                reads = []
                cf = CtorFlow(prog, rec, facts, reads, stack=(fn.usr,))
                try:
                    X = cf.enter(fn, {frozenset(f['n'] for f in rec.fields if False)})
                except Unsupported as e:
                    C.obligation('ctor-initialises', fn.at(), None, msg='%s (%s)' % (fn.sig(), e))
                    continue
                for f in rec.fields:
                    if not scalar(f['ty']) and not (f['ty'].get('cls') and facts.raw(f['ty']['cls'])
                                                    and not f['ty'].get('ptr') and not f['ty'].get('ref')):
                        continue
                    if not f['n'] or (rec.q, f['n']) not in used and scalar(f['ty']):
                        continue      # unnamed union; or no code ever uses the value
                    miss = [s for s in X.ret if f['n'] not in s]
                    key = '%s:%s' % (fn.sig(), f['n'])
                    if not miss:
                        C.obligation('ctor-initialises', '%s %s::%s' % (fn.at(), fn.cls, f['n']), True)
                    elif cf.escaped:
                        C.obligation('ctor-initialises', fn.at(), None, msg='%s leaves %s to code it hands *this to' % (fn.sig(), f['n']))
                    else:
                        C.obligation('ctor-initialises', fn.at(), False, key,
                                     'constructor %s can complete without giving member "%s" a value' % (fn.sig(), f['n']))
                seen = set()
                if reads and fn.get('ctor') == 'default' and static_only(prog, rec):
                    reads = []
                for (g, n, name) in reads:
                    if name in seen:
                        continue
                    seen.add(name)
                    C.obligation('no-early-read', g.at(n), False, '%s:%s' % (fn.sig(), name),
                                 'member "%s" is read before constructor %s has given it a value' % (name, fn.sig()))
                for (g, n, name) in cf.early:
                    if name in seen:
                        continue
                    seen.add(name)
                    C.obligation('no-early-read', g.at(n), False, '%s:%s' % (fn.sig(), name),
                                 'member "%s" is used before constructor %s has constructed it' % (name, fn.sig()))
                if not reads and not cf.early:
                    C.obligation('no-early-read', fn.at(), True)
            # objects filled in part by part
            if fn.body is not None:
                whole.run(fn)
                names = {v['id']: v['n'] for n in fn.nodes() if n.get('k') == 'decl' for v in n['c']}
                bad = {}
                for n, vid, m in whole.hits:
                    bad.setdefault((vid, m), n)
                for i in range(whole.seen - len(whole.hits)):
                    C.obligation('object-filled-in', fn.at(), True)
                for (vid, m), n in bad.items():
                    C.obligation('object-filled-in', fn.at(n), False, '%s:%s.%s' % (fn.sig(), names.get(vid), m),
                                 '%s is used as a whole in %s when its member "%s" was given no value' % (names.get(vid), fn.q, m))
            # heap objects of classes without constructors
            for n in fn.nodes():
                if n.get('k') == 'new' and not n.get('arr'):
                    i = n.get('init')
                    if i is not None and i.get('k') == 'ctor' and i.get('impl') and i.get('ck') == 'default':
                        raw = facts.raw(i.get('q'))
                        if raw and not i.get('zero'):
                            C.obligation('heap-object', fn.at(n), False, '%s:%s' % (fn.sig(), i['q']),
                                         'new %s leaves %s indeterminate' % (i['q'], ', '.join(raw)))
                        else:
                            C.obligation('heap-object', fn.at(n), True)
    C.floor('ctor-initialises', 150)
    C.floor('no-early-read', 150)
    C.floor('local-has-value', 50)
    return C.finish()

"""Copy, assignment, swap and clone transfer the whole state of an object."""
from .. import ir
from ..absval import Eval, Obj, Ptr, Undecidable, NullDeref, Oracle
from ..ir import walk, children
from ..report import Check
from .definit import is_this

RELEASE = {'free', 'close', 'fclose', 'gdome_str_unref', 'gdome_n_unref', 'gdome_el_unref', 'gdome_doc_unref',
           'gdome_di_unref'}


def strip(n):
    while n is not None and n.get('k') in ('cast', 'icast') and n.get('c'):
        n = n['c'][0]
    return n


def same_class(fn, ty):
    c = ty.get('cls') or (ty.get('s') or '').replace('const ', '').replace('&', '').strip()
    if fn.get('dep'):
        return c.split('::')[-1] == (fn.cls or '').split('::')[-1]
    return c == fn.cls


def rec_of(prog, fn):
    r = prog.rec_q.get(fn.cls)
    if r is None:
        for x in prog.recs.values():
            if x.usr == fn.get('clsusr'):
                return x
    return r


def stateful(prog, q, seen=()):
    """The (base) class has data members."""
    r = prog.rec_q.get(q)
    if r is None:
        return q is not None and not q.startswith('std::iterator')
    if r.fields:
        return True
    return any(stateful(prog, b.get('q')) for b in r.bases if b.get('q') not in seen)


class TokEval(Eval):
    """Moves opaque tokens between places; a place not written still holds the
    token of its initial contents."""

    def rank(self, path, ty=None):
        if path not in self.store:
            if path.startswith('copy#'):
                src, _, rest = path[5:].partition('#')
                return 'init:' + src + rest
            self.store[path] = 'init:' + path
        return self.store[path]

    def truth(self, n):
        m = n
        while m.get('k') in ('icast', 'cast', 'paren') and len(m.get('c') or []) == 1:
            m = m['c'][0]
        k = m.get('k')
        if k == 'un' and m['op'] == '!':
            return not self.truth(m['c'][0])
        if k == 'bin' and m['op'] == '&&':
            return self.truth(m['c'][0]) and self.truth(m['c'][1])
        if k == 'bin' and m['op'] == '||':
            return self.truth(m['c'][0]) or self.truth(m['c'][1])
        if k == 'bin' and m['op'] in ('==', '!=') and any(c.get('k') == 'this' for c in m['c']):
            return m['op'] == '!='              # the two objects are distinct
        if k == 'bool':
            return bool(m['v'])
        eq = k == 'bin' and m['op'] in ('==', '!=') or k == 'call' and m.get('op') in ('==', '!=')
        # only a comparison of the members themselves shows them equal, not one of their sizes
        eq = eq and not any(x.get('k') == 'call' and x is not m for x in walk(m))
        self.guards.append((eq, {x['n'] for x in walk(m) if x.get('k') in ('field', 'depmem', 'mref') and x.get('n')}))
        return bool(self.o.choose(2))

    def get(self, path):
        return self.rank(path)

    def basename(self, o, rec):
        return '%s.<%s>' % (o.p, rec)

    def exchange(self, x, y):
        x, y = x.p, y.p
        px = {k for k in self.store if k == x or k.startswith(x + '.')}
        a, b = self.get(x), self.get(y)
        self.store[x], self.store[y] = b, a

    def e_ctor(self, n):
        a = n.get('a', [])
        if n.get('ck') in ('copy', 'move') and len(a) == 1:
            v = self.ev(a[0])
            if isinstance(v, Obj):
                t = self.rv(v, {})
                if n.get('q') == self.cls:
                    self.fresh += 1
                    return Obj('copy#%s#' % v.p) if not self.fresh < 0 else None
                return t
            return v
        return Eval.e_ctor(self, n)

    def e_call(self, n):
        name = n.get('n') or (n.get('callee') or {}).get('n')
        args = n.get('a') or []
        obj = n.get('obj')
        if name == 'swap':
            t = self.prog.fn(n.get('fn')) if n.get('fn') else None
            if obj is not None and len(args) == 1:
                o = self.ev(obj)
                o = o.o if isinstance(o, Ptr) else o
                x = self.ev(args[0])
                x = x.o if isinstance(x, Ptr) else x
                rec = n.get('rec')
                if not isinstance(o, Obj) or not isinstance(x, Obj):
                    raise Undecidable('swap of values')
                if rec == self.cls:
                    if t is None or t.body is None:
                        raise Undecidable('swap body')
                    return self.inline(t, o, [x])
                if o.p in ('a', 'b') or o.p.startswith('copy#') and o.p.endswith('#'):
                    self.exchange(Obj(self.basename(o, rec)), Obj(self.basename(x, rec)))
                    return None
                self.exchange(o, x)
                return None
            if obj is None and len(args) == 2:
                x, y = self.ev(args[0]), self.ev(args[1])
                if isinstance(x, Obj) and isinstance(y, Obj):
                    self.exchange(x, y)
                    return None
        if name == 'operator=' and len(args) == 1 and obj is not None:
            l, r = self.ev(obj), self.ev(args[0])
            if isinstance(l, Obj) and n.get('rec') != self.cls:
                self.store[l.p] = self.rv(r, {})
                return l
        if name in ('move', 'forward') and len(args) == 1:
            return self.ev(args[0])
        return Eval.e_call(self, n)


def mentions(fn, pid):
    """fields of parameter pid that the function mentions; and whether the
    parameter is used other than through its own fields."""
    f, whole = set(), []
    par = fn.parents()
    for n in fn.nodes():
        if n.get('k') == 'var' and n.get('dk') == 'param' and n.get('id') == pid:
            p = par.get(id(n))
            while p is not None and p.get('k') in ('cast', 'icast'):
                n, p = p, par.get(id(p))
            if p is not None and p.get('k') in ('field', 'depmem', 'mref'):
                f.add(p['n'])
            elif p is not None and p.get('k') == 'un' and p['op'] == '&':
                pass
            else:
                whole.append((n, p))
    return f, whole


def reads_own(e, f):
    """e reads member f of *this"""
    for x in walk(e) if e is not None else ():
        if x.get('k') in ('field', 'depmem', 'mref') and x.get('n') == f:
            b = x.get('b') or (x.get('c') or [None])[0]
            if b is None or is_this(b) or strip(b).get('k') == 'this':
                return True
    return False


def accessor(prog, n):
    """the member a call of a member function on *this hands out"""
    g = prog.fn(n.get('fn')) if n.get('k') == 'call' and n.get('fn') else None
    if g is None or g.body is None or n.get('a'):
        return None
    rs = [x for x in g.nodes() if x.get('k') == 'ret' and x.get('e') is not None]
    if len(rs) != 1:
        return None
    e = strip(rs[0]['e'])
    while e is not None and e.get('k') == 'ctor' and len(e.get('a') or []) == 1:
        e = strip(e['a'][0])
    return e.get('n') if e is not None and e.get('k') == 'field' and is_this(e.get('b')) else None


def rebuilt(prog, fn, rec, ctor, loc):
    """Members (other than mutable ones) that building a new object from ctor and
    then filling it in does not carry over; None if that cannot be told."""
    g = prog.fn(ctor.get('fn')) if ctor.get('fn') else None
    fields = [f for f in rec.fields if not (f.get('mut') or f.get('mutable'))]
    if any(stateful(prog, b.get('q')) for b in rec.bases):
        return None
    carried = set()
    if ctor.get('a'):
        if g is None:
            return None
        params = {p['id']: k for k, p in enumerate(g.params)}
        byarg = []
        for a in ctor['a']:
            names = {x['n'] for x in walk(a) if x.get('k') in ('field', 'depmem', 'mref') and x.get('n')
                     and reads_own(x, x['n'])}
            for x in walk(a):
                if x.get('k') == 'call':
                    m = accessor(prog, x)
                    if m:
                        names.add(m)
                    elif x.get('obj') is not None and is_this(x['obj']):
                        return None
                if x.get('k') == 'this' and strip(a) is x:
                    return None
            byarg.append(names)
        for i in g.inits:
            m = (i.get('field') or '').split('::')[-1]
            if m and i.get('e') is not None:
                for x in walk(i['e']):
                    if x.get('k') == 'var' and x.get('dk') == 'param' and x.get('id') in params \
                            and params[x['id']] < len(byarg) and m in byarg[params[x['id']]]:
                        carried.add(m)
        if g.body is not None and any(x.get('k') in ('asg', 'bin') and x.get('op') == '=' for x in g.nodes()):
            for x in g.nodes():
                if x.get('k') in ('asg', 'bin') and x.get('op') == '=' and strip(x['c'][0]).get('k') == 'field':
                    carried.add(strip(x['c'][0])['n'])
    given = set(carried)
    if loc is not None:
        par = fn.parents()
        for n in fn.nodes():
            if n.get('k') != 'var' or n.get('id') != loc.get('id'):
                continue
            c, p = n, par.get(id(n))
            while p is not None and (p.get('k') in ('paren', 'cast') or p.get('k') == 'un' and p.get('op') == '*'):
                c, p = p, par.get(id(p))
            if p is None or p.get('k') in ('field', 'depmem', 'mref', 'ret', 'del'):
                continue
            if p.get('k') in ('asg', 'bin', 'call') and p.get('op') == '=' and c.get('k') == 'un' \
                    and any(is_this(x) for x in walk(p)):
                return set()
            return None
    if loc is not None:
        for n in fn.nodes():
            if n.get('k') in ('bin', 'asg', 'call'):
                xs = n.get('c') or [x for x in [n.get('obj')] + (n.get('a') or []) if x is not None]
                l = strip(xs[0]) if xs else None
                if l is not None and l.get('k') in ('field', 'depmem', 'mref'):
                    b = strip(l.get('b') or (l.get('c') or [None])[0])
                    if b is not None and b.get('k') == 'var' and b.get('id') == loc.get('id'):
                        carried.add(l['n'])
            if n.get('k') == 'call' and any(strip(a).get('k') == 'var' and strip(a).get('id') == loc.get('id')
                                            for a in n.get('a') or []):
                return None
            if n.get('k') == 'call' and n.get('obj') is not None and not n.get('mc') and n.get('op') in (None, '()'):
                o = strip(n['obj'])
                while o is not None and o.get('k') == 'un' and o.get('op') == '*':
                    o = strip(o['c'][0])
                if o is not None and o.get('k') == 'var' and o.get('id') == loc.get('id'):
                    return None
        carried &= given | Fill(fn, {f['n'] for f in fields}, loc.get('id')).run()
    return {f['n'] for f in fields} - carried


class Transfer:
    """The members an assignment (or the body of a copy constructor) has taken
    from the source on every path: a structural walk; a path on which the two
    objects are one, or on which the member was found equal, is left out."""

    def __init__(self, fn, fields, pid):
        self.fn, self.fields, self.pid = fn, fields, pid
        self.exits = []

    def is_src(self, n):
        n = strip(n)
        return n is not None and n.get('k') == 'var' and n.get('dk') == 'param' and n.get('id') == self.pid

    def own(self, n):
        """name of the member of *this that n is"""
        n = strip(n)
        if n is not None and n.get('k') in ('field', 'depmem', 'mref') and n.get('n') in self.fields:
            b = n.get('b') or (n.get('c') or [None])[0]
            if b is None or strip(b).get('k') == 'this' or is_this(b):
                return n['n']
        return None

    def reads(self, n, f):
        return any(x.get('k') in ('field', 'depmem', 'mref') and x.get('n') == f and self.own(x) is None for x in walk(n))

    def expr(self, n, out):
        """members certainly written by evaluating n"""
        if n is None:
            return
        k = n.get('k')
        if k == 'cond' or k == 'bin' and n.get('op') in ('&&', '||'):
            self.expr(n['c'][0], out)
            if k == 'cond':
                a, b = set(), set()
                self.expr(n['c'][1], a)
                self.expr(n['c'][2], b)
                out |= a & b
            return
        if k in ('bin', 'asg') and n.get('op') == '=' or k == 'call' and n.get('op') == '=':
            l = n['c'][0] if n.get('c') else n.get('obj') or n['a'][0]
            f = self.own(l)
            if f:
                out.add(f)
        if k == 'call' and n.get('op') != '=':
            for x in [n.get('obj')] + (n.get('a') or []):
                f = x is not None and self.own(x)
                if f and not n.get('mc'):
                    out.add(f)
        for c in children(n):
            self.expr(c, out)

    def selftest(self, e):
        """'==' or '!=' when e compares this with the address of the source"""
        e = strip(e)
        while e is not None and e.get('k') == 'paren':
            e = strip(e['c'][0])
        if e is None:
            return None
        if e.get('k') == 'un' and e.get('op') == '!':
            r = self.selftest(e['c'][0])
            return {'==': '!=', '!=': '=='}.get(r)
        if e.get('k') == 'bin' and e.get('op') in ('==', '!='):
            if any(strip(c).get('k') == 'this' for c in e['c']):
                return e['op']
        return None

    def equal(self, e):
        """members found equal where e is true / false"""
        e = strip(e)
        while e is not None and e.get('k') == 'paren':
            e = strip(e['c'][0])
        t, f = set(), set()
        if e is not None and (e.get('k') == 'bin' or e.get('k') == 'call') and e.get('op') in ('==', '!='):
            xs = e.get('c') or [x for x in [e.get('obj')] + (e.get('a') or []) if x is not None]
            ns = {strip(x).get('n') for x in xs if strip(x).get('k') in ('field', 'depmem', 'mref')}
            if len(xs) == 2 and len(ns) == 1:
                (t if e['op'] == '==' else f).update(ns)
        return t, f

    def stmt(self, s, st):
        """state after s, or None where it does not fall through"""
        if s is None or st is None:
            return st
        k = s.get('k')
        if k == 'block':
            for c in s.get('c') or []:
                st = self.stmt(c, st)
            return st
        if k == 'if':
            if s.get('cond') is None:
                return st
            self.expr(s['cond'], st)
            q = self.selftest(s['cond'])
            t, f = self.equal(s['cond'])
            a = self.stmt(s.get('then'), st | t)
            b = self.stmt(s.get('els'), st | f)
            if q == '==':
                self.exits = [x for x in self.exits if x[1] is not s]
                return b
            if q == '!=':
                return a
            if a is None or b is None:
                return b if a is None else a
            return a & b
        if k == 'ret':
            if s.get('e') is not None:
                self.expr(s['e'], st)
            self.exits.append((set(st), s))
            return None
        if k in ('throw',):
            return None
        if k in ('while', 'for', 'rfor', 'do'):
            out = set(st)
            for x in walk(s):
                self.expr(x, out) if x.get('k') in ('bin', 'asg', 'call', 'un') else None
            return out
        if k == 'try':
            return self.stmt(s.get('b'), st)
        if k == 'decl':
            for v in s.get('c') or []:
                self.expr(v.get('init'), st)
            return st
        st = set(st)
        self.expr(s.get('e') if k == 'expr' and s.get('e') is not None else s, st)
        return st

    def run(self):
        par = self.fn.parents()
        start = set()
        r = self.stmt(self.fn.body, start)
        # a return below a test that the two objects are one does not count
        outs = []
        for st, n in self.exits:
            p, c, skip = par.get(id(n)), n, False
            while p is not None:
                if p.get('k') == 'if':
                    q = self.selftest(p.get('cond'))
                    if q == '==' and c is p.get('then') or q == '!=' and c is p.get('els'):
                        skip = True
                c, p = p, par.get(id(p))
            if not skip:
                outs.append(st)
        if r is not None:
            outs.append(r)
        must = None
        for o in outs:
            must = set(o) if must is None else must & o
        return must if must is not None else set(self.fields)


class Fill(Transfer):
    """The members of a new object that are filled in on every path: a member
    whose own value is all that decides whether it is needs none of it."""

    def own(self, n):
        n = strip(n)
        if n is not None and n.get('k') in ('field', 'depmem', 'mref') and n.get('n') in self.fields:
            b = strip(n.get('b') or (n.get('c') or [None])[0])
            while b is not None and b.get('k') == 'un' and b.get('op') == '*':
                b = strip(b['c'][0])
            if b is not None and b.get('k') == 'var' and b.get('id') == self.pid:
                return n['n']
        return None

    def equal(self, e):
        ns = {x['n'] for x in walk(e) if x.get('k') in ('field', 'depmem', 'mref') and x.get('n') in self.fields}
        return (ns, set(ns)) if len(ns) == 1 else (set(), set())

    def selftest(self, e):
        return None


def changed_after(fn, vid, rec, allow):
    """A statement that changes a (not mutable) member of the object that local
    variable vid is or points to; allow(member, value) excuses a write."""
    mut = {f['n'] for f in rec.fields if f.get('mut') or f.get('mutable')}

    def through(n):
        n = strip(n)
        if n is None or n.get('k') not in ('field', 'depmem', 'mref'):
            return None
        b = strip(n.get('b') or (n.get('c') or [None])[0])
        while b is not None and b.get('k') == 'un' and b.get('op') == '*':
            b = strip(b['c'][0])
        if b is not None and b.get('k') == 'var' and b.get('id') == vid:
            return n['n']
        return None
    for n in fn.nodes():
        k = n.get('k')
        if k in ('bin', 'asg', 'call') and n.get('op') == '=':
            xs = n.get('c') or [x for x in [n.get('obj')] + (n.get('a') or []) if x is not None]
            f = through(xs[0])
            if f and f not in mut and not allow(f, xs[1] if len(xs) > 1 else None):
                return n, f
        elif k == 'call' and n.get('obj') is not None and not n.get('mc'):
            f = through(n['obj'])
            if f and f not in mut and not allow(f, n):
                return n, f
    return None


def check(prop):
    C = Check(prop, 'For every class: swap(x) is evaluated over opaque tokens and must leave each data member and stateful base '
              'of either object holding what the other held; every hand-written copy constructor and copy assignment must take '
              'each data member and stateful base from the source object; every concrete class below a clonable base must '
              'override clone() and return a new object of its own class copied from *this; a class whose destructor releases '
              'a raw member must define or forbid copying; assignment must not release before reading without a self test.',
              ['members are taken from the source when the copy operation mentions the source member of the same name'])
    done = set()
    for prog, fns in ir.everywhere():
        for fn in fns:
            key = (fn.file, fn.line, fn.n)
            if fn.get('inst') or key in done or fn.body is None or not fn.cls:
                continue
            rec = rec_of(prog, fn)
            if rec is None:
                continue
            # --- swap
            if fn.n == 'swap' and len(fn.params) == 1 and same_class(fn, fn.params[0]['ty']):
                done.add(key)
                runs = []

                def once():
                    ev = TokEval(prog, orc)
                    ev.cls = fn.cls
                    ev.guards = []
                    ev.inline(fn, Obj('a'), [Obj('b')])
                    runs.append(ev)
                orc = Oracle(4000)
                try:
                    for _ in orc.all(once):
                        pass
                except (Undecidable, NullDeref) as e:
                    C.obligation('swap exchanges every member', fn.at(), None, msg='%s (%s)' % (fn.q, e))
                else:
                    places = ['.' + f['n'] for f in rec.fields if not f['ty'].get('ref')]
                    places += ['.<%s>' % b.get('q') for b in rec.bases if stateful(prog, b.get('q'))]
                    for pl in places:
                        ok = True
                        for ev in runs:
                            ga, gb = ev.get('a' + pl), ev.get('b' + pl)
                            if pl.startswith('.<') and ga == 'init:a' + pl:
                                # the base class may have been named by another spelling
                                alt = [k for k in ev.store if k.startswith('a.<')]
                                if alt and len(places) and len([b for b in rec.bases if stateful(prog, b.get('q'))]) == 1:
                                    k = alt[0][1:]
                                    ga, gb = ev.get('a' + k).replace(k, pl), ev.get('b' + k).replace(k, pl)
                            if ga == 'init:b' + pl and gb == 'init:a' + pl:
                                continue
                            # skipped where the two were found equal?
                            skip = any(eq and pl[1:] in names for eq, names in ev.guards)
                            ok = None if skip and ok is not False else False
                        C.obligation('swap exchanges every member', '%s %s' % (fn.at(), pl), ok, '%s%s' % (fn.q, pl),
                                     '%s leaves member "%s" behind: after the call it does not hold the other object\'s value'
                                     % (fn.q, pl[1:]))
            # --- copy constructor / assignment
            is_cc = fn.get('ctor') in ('copy', 'move') and not fn.get('dflt')
            is_as = fn.n == 'operator=' and len(fn.params) == 1 and same_class(fn, fn.params[0]['ty']) and not fn.get('dflt')
            if (is_cc or is_as) and not fn.get('del'):
                done.add(key)
                C.count('copy operations')
                pid = fn.params[0]['id']
                got, whole = mentions(fn, pid)
                full = False
                unknown = False
                basecopied = set()
                for n, p in whole:
                    if p is None:
                        # the parameter itself is the initialiser of a base or member
                        for i in fn.inits:
                            if i.get('e') is n or i.get('e') is not None and any(x is n for x in walk(i['e'])):
                                basecopied.add(i.get('base') or i.get('field'))
                        continue
                    if p.get('k') == 'ctor' and (p.get('q') == fn.cls or p.get('ck') in ('copy', 'move')):
                        init = [i for i in fn.inits if i.get('e') is p]
                        if init:
                            basecopied.add(init[0].get('base') or init[0].get('field'))
                            if init[0].get('deleg'):
                                full = True
                        else:
                            full = True
                    elif p.get('k') == 'uctor' or p.get('k') in ('init', 'paren'):
                        full = True
                    elif p.get('k') == 'call' and p.get('n') in ('operator=', 'swap') and (p.get('rec') in (fn.cls, None)):
                        full = True
                    elif p.get('k') == 'call' and p.get('n') == 'operator=':
                        basecopied.add(p.get('rec'))
                    else:
                        unknown = True
                if not full and not unknown and not fn.get('dep') or is_as and not full and not unknown:
                    names = {f['n'] for f in rec.fields}
                    inits = {i.get('field') for i in fn.inits if i.get('field')}
                    inits |= {(x or '').split('::')[-1] for x in inits}
                    must = Transfer(fn, names, pid).run()
                    for f in rec.fields:
                        if f['n'] in got and f['n'] not in inits and not f['ty'].get('ref'):
                            C.obligation('every path of a copy takes the member', '%s %s' % (fn.at(), f['n']),
                                         f['n'] in must, '%s:%s on some paths' % (fn.sig(), f['n']),
                                         '%s takes member "%s" from the object it copies only on some of its paths'
                                         % (fn.sig(), f['n']))
                if full and is_as:
                    # the temporary is the source as it is
                    for d in fn.nodes():
                        if d.get('k') != 'decl':
                            continue
                        for v in d['c']:
                            i = strip(v.get('init')) if v.get('init') else None
                            if i is not None and i.get('k') == 'ctor' and i.get('ck') in ('copy', 'move') and i.get('q') == fn.cls:
                                ch = changed_after(fn, v['id'], rec, lambda f, e: False)
                                C.obligation('copies take every member', '%s temporary' % fn.at(d), ch is None,
                                             '%s:temporary' % fn.sig(),
                                             '%s changes member "%s" of its copy of the source before it becomes *this'
                                             % (fn.q, ch[1] if ch else ''))
                    # copy and swap: the temporary must reach *this
                    sw = [n for n in fn.nodes() if n.get('k') == 'call' and (n.get('n') == 'swap' or n.get('op') == '='
                          or (n.get('callee') or {}).get('n') == 'swap')]
                    C.obligation('copies take every member', fn.at(), True if sw else None, msg=fn.q)
                elif full:
                    C.obligation('copies take every member', fn.at(), True)
                else:
                    for f in rec.fields:
                        ok = f['n'] in got or f['n'] in basecopied
                        if f['ty'].get('ref') and is_as:
                            continue
                        if not ok and unknown:
                            ok = None
                        C.obligation('copies take every member', '%s %s' % (fn.at(), f['n']), ok,
                                     '%s:%s' % (fn.sig(), f['n']),
                                     '%s does not take member "%s" from the object it copies' % (fn.sig(), f['n']))
                    for b in rec.bases:
                        q = b.get('q')
                        if stateful(prog, q):
                            ok = any(x and (x == q or x.split('::')[-1] == (q or '').split('::')[-1]) for x in basecopied)
                            C.obligation('copies take every member', '%s base %s' % (fn.at(), q),
                                         ok or (None if unknown or basecopied else False), '%s:base %s' % (fn.sig(), q),
                                         '%s does not copy its base class %s' % (fn.sig(), q))
                if is_as:
                    order = list(fn.nodes())
                    guard = any(n.get('k') == 'bin' and n['op'] in ('==', '!=') and
                                any(strip(c).get('k') == 'this' for c in n['c']) for n in order)
                    rel, bad = set(), None
                    for n in order:
                        if n.get('k') == 'del' and strip(n['c'][0]).get('k') == 'field' and is_this(strip(n['c'][0]).get('b')):
                            rel.add(strip(n['c'][0])['n'])
                        if n.get('k') == 'call' and n.get('n') in ('clear', 'reset') and n.get('obj') is not None \
                                and strip(n['obj']).get('k') == 'field' and is_this(strip(n['obj']).get('b')) and not n.get('a'):
                            rel.add(strip(n['obj'])['n'])
                        if n.get('k') == 'call' and not n.get('a') and not n.get('mc') and n.get('rec') == fn.cls \
                                and n.get('fn') and (n.get('obj') is None or is_this(n['obj'])):
                            h = prog.fn(n['fn'])
                            for x in (h.nodes() if h is not None and h.body is not None else ()):
                                if x.get('k') in ('bin', 'asg') and x.get('op') == '=':
                                    l = strip(x['c'][0])
                                    if l is not None and l.get('k') == 'field' and is_this(l.get('b')):
                                        rel.add(l['n'])
                        if n.get('k') == 'field' and n['n'] in rel:
                            b = strip(n.get('b'))
                            if b and b.get('k') == 'var' and b.get('dk') == 'param' and b.get('id') == pid:
                                bad = n
                    C.obligation('self-assignment', fn.at(bad), guard or bad is None, fn.sig(),
                                 '%s releases member "%s" and then reads it from the source, which may be the same object'
                                 % (fn.q, bad['n'] if bad else ''))
            # --- clone
            if fn.n == 'clone' and not fn.params and ((fn.get('ret') or {}).get('ptr')):
                done.add(key)
                rets = [n for n in fn.nodes() if n.get('k') == 'ret' and n.get('e')]
                for r in rets:
                    e = strip(r['e'])
                    loc = e if e.get('k') == 'var' else None
                    if e.get('k') != 'new':
                        # a local that was initialised with a new-expression
                        src = None
                        if e.get('k') == 'var':
                            for d in fn.nodes():
                                if d.get('k') == 'decl':
                                    for v in d['c']:
                                        if v['id'] == e.get('id') and v.get('init'):
                                            src = strip(v['init'])
                        e = src if src is not None and src.get('k') == 'new' else None
                    if e is None:
                        C.obligation('clone copies the whole object', fn.at(r), None, msg=fn.q)
                        continue
                    i = e.get('init') or {}
                    ok = i.get('k') == 'ctor' and i.get('q') == fn.cls and i.get('ck') in ('copy', 'move') \
                        and any(is_this(x) for a in i.get('a', []) for x in walk(a))
                    why = '%s returns an object that is not a copy of *this of class %s' % (fn.q, fn.cls)
                    if ok and loc is not None:
                        ch = changed_after(fn, loc.get('id'), rec, lambda f, e: reads_own(e, f))
                        if ch:
                            ok = False
                            why = '%s changes member "%s" of the copy it returns' % (fn.q, ch[1])
                    elif not ok and i.get('k') == 'ctor' and i.get('q') == fn.cls:
                        miss = rebuilt(prog, fn, rec, i, loc)
                        ok = None if miss is None else not miss
                        if miss:
                            why = '%s does not carry member "%s" over to the object it returns' % (fn.q, sorted(miss)[0])
                    C.obligation('clone copies the whole object', fn.at(r), ok, fn.sig(), why)
        # every concrete class below a class with a virtual clone() overrides it
        for r in prog.recs.values():
            if not r.mine or r.get('dep'):
                continue
            cl = [m for m in r.methods if m.get('n') == 'clone' and m.get('virt')]
            if not cl:
                continue
            for d in prog.derived(r.q):
                if d.get('abs') or not d.mine or ('clone', d.q, d.file) in done:
                    continue
                done.add(('clone', d.q, d.file))
                own = any(m.get('n') == 'clone' for m in d.methods)
                C.obligation('concrete classes clone themselves', '%s:%s %s' % (ir.rel(d.file), d.line, d.q), own, d.q,
                             'class %s inherits clone() from a base: cloning one yields a different class' % d.q)
        # rule of three
        for fn in fns:
            if not fn.n.startswith('~') or fn.get('inst') or fn.get('dflt') or ('dtor', fn.file, fn.line) in done:
                continue
            done.add(('dtor', fn.file, fn.line))
            rec = rec_of(prog, fn)
            if rec is None:
                continue
            raw = {f['n'] for f in rec.fields if f['ty'].get('ptr') or f['ty'].get('int')}
            freed = set()
            for n in fn.nodes():
                if n.get('k') == 'del':
                    x = strip(n['c'][0])
                    if x and x.get('k') == 'field' and x['n'] in raw:
                        freed.add(x['n'])
                if n.get('k') == 'call' and (n.get('n') in RELEASE or (n.get('callee') or {}).get('k') == 'field'):
                    for a in n.get('a', []):
                        for x in walk(a):
                            if x.get('k') == 'field' and x['n'] in raw:
                                freed.add(x['n'])
            if not freed:
                continue
            C.count('owning destructors')

            def declared(kind):
                for m in rec.methods:
                    if m.get('user') or m.get('del'):
                        if kind == 'copy' and m.get('ctor') == 'copy':
                            return True
                        if kind == 'assign' and m.get('n') == 'operator=':
                            return True
                for g in prog.real_fns():
                    if g.cls == fn.cls and g.file == fn.file:
                        if kind == 'copy' and g.get('ctor') == 'copy' and not g.get('dflt'):
                            return True
                        if kind == 'assign' and g.n == 'operator=' and not g.get('dflt'):
                            return True
                return False

            def base_nocopy():
                for b in prog.bases(fn.cls)[1:]:
                    r = prog.rec_q.get(b)
                    if r is None:
                        if b and b.startswith('std::') and 'streambuf' in b:
                            return True
                        continue
                    if any(m.get('ctor') == 'copy' and (m.get('del') or m.get('acc') == 2) for m in r.methods):
                        return True
                return False
            for kind in ('copy', 'assign'):
                ok = declared(kind) or base_nocopy() or any(f['ty'].get('ref') for f in rec.fields) and kind == 'assign' \
                    or uncopied(prog, rec, kind)
                C.obligation('owners control copying', '%s %s' % (fn.at(), kind), ok, '%s:%s' % (fn.cls, kind),
                             'class %s releases %s in its destructor but leaves the compiler to %s it: two objects would release '
                             'the same resource' % (fn.cls, ', '.join(sorted(freed)), kind))
    C.floor('swap exchanges every member', 12)
    C.floor('copies take every member', 10)
    C.floor('clone copies the whole object', 4)
    C.floor('concrete classes clone themselves', 4)
    return C.finish()


def uncopied(prog, rec, kind):
    """No code of the program ever copies (assigns) an object of this class."""
    for fn in prog.real_fns():
        for n in fn.nodes():
            if kind == 'copy' and n.get('k') == 'ctor' and n.get('q') == rec.q and n.get('ck') == 'copy':
                return False
            if kind == 'assign' and n.get('k') == 'call' and n.get('op') == '=' and n.get('rec') == rec.q:
                return False
            if n.get('k') == 'field' and False:
                return False
    return True

"""Raw resources (XML tree references, descriptors, C memory and files) held by
local variables are released exactly once on every path."""
from ..flow import Flow, Unsupported
from ..ir import walk, children
from .. import throws

ACQUIRE_C = {'malloc': 'free', 'calloc': 'free', 'strdup': 'free', 'fopen': 'fclose', 'open': 'close', 'creat': 'close',
             'dup': 'close', 'popen': 'pclose', 'opendir': 'closedir', 'fdopen': 'fclose'}
RELEASE_C = {'free', 'fclose', 'close', 'pclose', 'closedir'}
BORROW_C = {'fread', 'fwrite', 'fseek', 'ftell', 'ferror', 'feof', 'fgets', 'fputs', 'fprintf', 'fflush', 'read', 'write',
            'dup2', 'lseek', 'memcpy', 'memmove', 'memset', 'strlen', 'strcpy', 'strcat', 'strcmp', 'strchr', 'strncpy',
            'only_whitespace', 'printf', 'sprintf', 'snprintf', 'fcntl', 'isatty', 'fgetc', 'getc', 'rewind'}
NOTE = {'gdome_cast_', }


def strip(n):
    while n is not None:
        k = n.get('k')
        if k in ('cast', 'icast') and n.get('c'):
            n = n['c'][0]
        elif k == 'call' and (n.get('n') or '').startswith('gdome_cast') and n.get('a'):
            n = n['a'][0]
        else:
            return n
    return n


def isgd(n):
    return (n.get('n') or '').startswith('gdome_')


def acquires(n):
    """The node is a call that gives the caller a resource of its own."""
    if n is not None and n.get('k') == 'new' and not n.get('place'):
        return 'new'
    if n is None or n.get('k') != 'call':
        return None
    nm = n.get('n') or ''
    if nm.startswith('gdome_'):
        if nm.startswith('gdome_cast') or nm.endswith('_unref') or nm.endswith('_ref'):
            return None
        s = (n.get('ty') or {}).get('s', '')
        if '*' in s and 'Gdome' in s:
            return 'xml'
        return None
    if n.get('obj') is None and (n.get('q') or nm) == nm and nm in ACQUIRE_C:
        return nm
    return None


def releases(n):
    if n.get('k') == 'del':
        return True
    if n.get('k') != 'call' or n.get('obj') is not None:
        return False
    nm = n.get('n') or ''
    return nm.startswith('gdome_') and nm.endswith('_unref') or nm in RELEASE_C and (n.get('q') or nm) == nm


class Res(Flow):
    """States are frozensets of (variable, 'held'|'freed', line)."""

    def __init__(self, prog, fn, note):
        super().__init__(prog)
        self.fn = fn
        self.note = note
        self.summ = {}
        self.thr = throws.of(prog)

    def key(self, n):
        n = strip(n)
        if n is None:
            return None
        if n.get('k') == 'var' and n['dk'] == 'local':
            return n['id']
        if n.get('k') == 'idx':
            a, i = strip(n['c'][0]), strip(n['c'][1])
            if a.get('k') == 'var' and a['dk'] == 'local' and i.get('k') == 'int':
                return (a['id'], i['v'])
        return None

    def st(self, s, k):
        for x in s:
            if x[0] == k:
                return x
        return None

    def put(self, s, k, what, line):
        return frozenset([x for x in s if x[0] != k] + ([(k, what, line)] if what else []))

    def resolve(self, s, k):
        x = self.st(s, k)
        while x and x[1] == 'alias':
            k = x[2]
            x = self.st(s, k)
        return k, x

    # -- events
    def declare(self, v, st):
        init = v.get('init')
        return (self.bind(v['id'], init, st, v),)

    def bind(self, k, e, st, at):
        old = self.st(st, k)
        x = strip(e) if e is not None else None
        if old and old[1] == 'held' and x is not None and self.key(x) is not None and self.resolve(st, self.key(x))[0] == k:
            return st
        other = [y for y in st if y[1] == 'alias' and y[2] == k]
        if old and old[1] == 'held' and other:
            st = self.put(self.put(st, k, None, 0), other[0][0], 'held', old[2])
            old = None
        if old and old[1] == 'held':
            re = x is not None and x.get('k') == 'call' and x.get('n') == 'realloc'
            if not re:
                self.note('leak', self.fn, at, k, 'overwritten while it still holds a resource')
        if x is None:
            return self.put(st, k, None, 0)
        a = acquires(x)
        if a:
            return self.put(st, k, 'held', x.get('l') or 0)
        o = self.key(x)
        if o is not None:
            r, y = self.resolve(st, o)
            if y and y[1] == 'held':
                if isinstance(r, tuple):
                    return self.put(st, k, 'alias', r)
                # the resource moves to the new name
                return self.put(self.put(st, r, 'alias', k), k, 'held', y[2])
        return self.put(st, k, None, 0)

    def use(self, n, s):
        k = self.key(n)
        if k is None:
            return s
        r, y = self.resolve(s, k)
        if y and y[1] == 'freed':
            self.note('use', self.fn, n, k, 'used after it was released')
        return s

    def escape(self, n, s):
        x = strip(n)
        while x is not None and (x.get('k') == 'bin' and x.get('op') in ('=', ',') or x.get('k') == 'cond'):
            if x['k'] == 'cond':
                s = self.escape(x['c'][1], s)
                x = strip(x['c'][2])
            else:
                x = strip(x['c'][0 if x['op'] == '=' else 1])
        n = x
        k = self.key(n)
        if k is None:
            return s
        r, y = self.resolve(s, k)
        if y and y[1] == 'held':
            return self.put(s, r, None, 0)
        return s

    def leaf(self, n, st):
        k = n['k']
        if k == 'bin' and n['op'] == '=':
            kk = self.key(n['c'][0])
            if kk is not None:
                return (self.bind(kk, n['c'][1], st, n),)
            return (self.escape(n['c'][1], st),)
        if k == 'call':
            if n.get('n') == 'pipe' and n.get('a') and strip(n['a'][0]).get('k') == 'var':
                i = strip(n['a'][0])['id']
                s2 = self.put(self.put(st, (i, 0), 'held', n.get('l') or 0), (i, 1), 'held', n.get('l') or 0)
                return (frozenset(list(s2) + [('pipe', 'maybe', i)]),)
            if n.get('n') == 'realloc' and n.get('a'):
                return (self.escape(n['a'][0], st),)
            if releases(n) and n.get('a'):
                kk = self.key(n['a'][0])
                if kk is not None:
                    r, y = self.resolve(st, kk)
                    if y and y[1] == 'freed':
                        self.note('double', self.fn, n, kk, 'released twice')
                    if y:
                        return (self.put(st, r, 'freed', n.get('l') or 0),)
                return (st,)
            s = st
            for i, a in enumerate(n.get('a') or []):
                self.use(a, s)
                how = self.takes(n, i)
                if how == 'take':
                    s = self.escape(a, s)
                x = strip(a)
                if how == 'borrow' and acquires(x) == 'xml' and not isgd(n):
                    self.note('leak', self.fn, x, None, 'passes a new reference straight to %s, which does not release it'
                              % (n.get('n') or '?'))
                if how == 'borrow' and acquires(x) == 'new':
                    self.note('leak', self.fn, x, None, 'passes a new object straight to %s, which neither keeps nor deletes it'
                              % (n.get('n') or '?'))
                if how == 'borrow' and acquires(x) == 'xml' and isgd(n):
                    self.note('leak', self.fn, x, None, 'passes a new reference straight to %s, which does not release it' % n['n'])
            return (s,)
        if k == 'del':
            kk = self.key(n['c'][0])
            if kk is not None:
                r, y = self.resolve(st, kk)
                if y and y[1] == 'freed':
                    self.note('double', self.fn, n, kk, 'released twice')
                if y:
                    return (self.put(st, r, 'freed', n.get('l') or 0),)
            return (st,)
        if k in ('ctor', 'init'):
            s = st
            for i, a in enumerate(n.get('a') or []):
                self.use(a, s)
                how = self.takes(n, i)
                x = strip(a)
                if how == 'take':
                    kk = self.key(a)
                    if acquires(x) is None and (kk is None or not self.resolve(s, kk)[1]) and self.takes_xml(n, i) \
                            and x.get('k') == 'field':
                        self.note('borrowed', self.fn, n, None, 'gives away a reference it only borrows')
                    s = self.escape(a, s)
            return (s,)
        return (st,)

    def takes_xml(self, n, i):
        t = self.prog.fn(n.get('fn')) if n.get('fn') else None
        return t is not None and i < len(t.params) and 'Gdome' in t.params[i]['ty'].get('s', '') and self.summary(t, i) == 'take'

    def takes(self, n, i):
        nm = n.get('n') or ''
        if n['k'] == 'call' and nm.startswith('gdome_'):
            return 'take' if nm.endswith('_own') else 'borrow'
        t = self.prog.fn(n.get('fn')) if n.get('fn') else None
        if t is not None and t.body is not None and not n.get('virt') and i < len(t.params):
            return self.summary(t, i)
        if n['k'] == 'call' and (n.get('q') or nm) == nm and nm in BORROW_C:
            return 'borrow'
        return 'take'

    def summary(self, t, i):
        k = (t.usr, i)
        if k in self.summ:
            return self.summ[k]
        self.summ[k] = 'borrow'

        def mine(n):
            n = strip(n)
            return n is not None and n.get('k') == 'var' and n['dk'] == 'param' and n['id'] == i
        how = 'borrow'
        stored = None
        for ini in t.inits:
            if ini.get('e') is not None and mine(ini['e']) and ini.get('field'):
                stored = ini['field']
            elif ini.get('e') is not None:
                pass
        for n in t.nodes():
            nk = n['k']
            if nk == 'bin' and n['op'] == '=' and mine(n['c'][1]):
                l = strip(n['c'][0])
                if l.get('k') == 'field':
                    stored = l['n']
                elif l.get('k') != 'var' or l['dk'] != 'local':
                    how = 'take'
                else:
                    how = 'take'
            elif nk == 'ret' and n.get('e') and mine(n['e']):
                how = 'take'
            elif nk == 'decl' and any(v.get('init') is not None and mine(v['init']) for v in n['c']):
                how = 'take'
            elif nk in ('call', 'ctor'):
                for j, a in enumerate(n.get('a') or []):
                    if mine(a):
                        if nk == 'call' and releases(n):
                            how = 'take'
                        elif self.takes(n, j) == 'take':
                            how = 'take'
        if stored:
            ref = False
            for n in t.nodes():
                if n['k'] == 'call' and (n.get('n') or '').startswith('gdome_') and n['n'].endswith('_ref') and n.get('a'):
                    x = strip(n['a'][0])
                    if mine(x) or x.get('k') == 'field' and x['n'] == stored:
                        ref = True
            how = 'borrow' if ref else 'take'
        self.summ[k] = how
        return how

    def drop(self, n, st):
        k = self.key(n)
        if k is None:
            return st
        r, y = self.resolve(st, k)
        return self.put(st, r, None, 0) if y and y[1] == 'held' else st

    def assume(self, n, truth, st):
        x = strip(n)
        if x.get('k') == 'var' and not truth:
            return (self.drop(x, st),)
        if x.get('k') == 'bin' and x['op'] in ('==', '!='):
            a, b = strip(x['c'][0]), strip(x['c'][1])
            for p, q in ((a, b), (b, a)):
                if q.get('k') in ('null', 'int') and not q.get('v') and (x['op'] == '==') == truth:
                    st = self.drop(p, st)
                minus = q.get('k') == 'un' and q.get('op') == '-' or q.get('k') == 'int' and (q.get('v') or 0) < 0
                if minus and (x['op'] == '==') == truth and p.get('k') == 'call' and p.get('n') == 'pipe':
                    st = frozenset(y for y in st if not (isinstance(y[0], tuple)))
                if minus and (x['op'] == '==') == truth and p.get('k') == 'var':
                    st = self.drop(p, st)
        return (st,)

    def on_return(self, n, st):
        if n.get('e'):
            self.use(n['e'], st)
            return (self.escape(n['e'], st),)
        return (st,)

    def may_throw(self, n, st):
        out = list(self.thr.node(self.fn, n))
        if any(isinstance(x[0], tuple) for x in st) and n['k'] == 'call' and (n.get('n') or '') in (
                'append', 'push_back', 'operator+=', 'assign', 'insert', 'resize', 'reserve'):
            out.append('std::bad_alloc')
        return out

    def names(self):
        out = {}
        for n in self.fn.nodes():
            if n['k'] == 'decl':
                for v in n['c']:
                    out[v['id']] = v['n']
        return out


def uses_resources(f):
    for n in f.nodes():
        if n['k'] == 'call' and (acquires(n) or n.get('n') == 'pipe' and n.get('obj') is None):
            return True
        if n['k'] == 'decl' and any(acquires(strip(v['init'])) == 'new' for v in n['c'] if v.get('init') is not None):
            return True
        if n['k'] == 'bin' and n['op'] == '=' and acquires(strip(n['c'][1])) == 'new':
            return True
        if n['k'] in ('call', 'ctor') and any(acquires(strip(a)) == 'new' for a in n.get('a') or []):
            return True
    return False


def run(ck, prog, fns):
    for f in fns:
        if f.body is None or f.get('dep') or not uses_resources(f):
            continue
        found = {}

        def note(kind, fn, n, k, msg):
            found.setdefault((kind, k, msg), n)
        r = Res(prog, f, note)
        names = r.names()

        def nm(k):
            if isinstance(k, tuple):
                return '%s[%d]' % (names.get(k[0], '?'), k[1])
            return names.get(k, 'a temporary')
        und = None
        try:
            x = r.run(f, {frozenset()})
            ends = [(s, 'returns') for s in x.ret] + [(s, 'throws') for t, s in x.thr]
            for s, how in ends:
                for y in s:
                    if y[1] == 'held':
                        found.setdefault(('leak', y[0], 'is still held when the function %s' % how), {'l': y[2]})
        except Unsupported as e:
            und = str(e)
        ck.count('functions that acquire resources')
        if found:
            for (kind, k, msg), n in sorted(found.items(), key=str):
                ck.obligation('raw resources released exactly once', f.at(n if n and n.get('l') else None), False,
                              '%s|%s|%s' % (f.sig(), kind, nm(k)), '%s: %s %s' % (f.sig(), nm(k), msg))
        else:
            ck.obligation('raw resources released exactly once', f.at(), None if und else True, f.sig(), und)


def fresh(prog, call, seen=()):
    """Every body the call may reach gives its caller a new object."""
    usr = call.get('fn')
    g = prog.fn(usr) if usr else None
    if not usr or usr in seen:
        return False
    bodies = [g] if g is not None and g.body is not None else []
    if call.get('virt') and call.get('rec'):
        bodies += [h for h in prog.real_fns() if h.n == call.get('n') and h.cls and h.cls != call['rec'] and h.body is not None
                   and len(h.params) == len(call.get('a') or []) and call['rec'] in prog.bases(h.cls)]
    if not bodies:
        return False
    for h in bodies:
        rs = [strip(x['e']) for x in h.nodes() if x['k'] == 'ret' and x.get('e') is not None]
        if not rs or not all(e.get('k') == 'new' or e.get('k') == 'call' and fresh(prog, e, tuple(seen) + (usr,))
                             for e in rs):
            return False
    return True


def new_members(ck, prog, seen):
    """A raw pointer member that is given a new object has it deleted by the destructor."""
    for f in prog.real_fns():
        if not f.cls or f.get('dep') or f.body is None and not f.inits:
            continue
        puts = [(i.get('field'), i.get('e'), None) for i in f.inits if i.get('field') and i.get('e') is not None]
        puts += [(strip(n['c'][0]).get('n'), n['c'][1], n) for n in f.nodes() if n['k'] == 'bin' and n['op'] == '='
                 and strip(n['c'][0]).get('k') == 'field']
        for fld, e, at in puts:
            x = strip(e)
            ty = x.get('ty') or {}
            if not ty.get('ptr') or not (x.get('k') == 'new' and not x.get('place')
                                         or x.get('k') == 'call' and fresh(prog, x)):
                continue
            fld = fld.split('::')[-1]
            rec = prog.rec_q.get(f.cls)
            fd = [y for y in (rec.fields if rec else ()) if y['n'] == fld]
            if not fd or not fd[0]['ty'].get('ptr') or (f.cls, fld) in seen:
                continue
            # handed on to another owner by the same function
            if any(n['k'] in ('call', 'ctor') and any(
                    (strip(a) or {}).get('k') == 'field' and strip(a)['n'] == fld
                    or at is not None and any(y is at for y in walk(a)) for a in n.get('a') or []) for n in f.nodes()):
                continue
            seen.add((f.cls, fld))
            ok = False
            for d in prog.real_fns():
                if d.cls != f.cls or d.body is None:
                    continue
                for n in d.nodes():
                    tgt = None
                    if n['k'] == 'del':
                        tgt = [n['c'][0]]
                    elif n['k'] in ('call', 'ctor') and d.get('dtor'):
                        tgt = n.get('a') or []
                    for y in tgt or ():
                        y = strip(y)
                        if y is not None and y.get('k') == 'field' and y['n'] == fld and (d.get('dtor') or ok):
                            ok = True
                if d.get('dtor') and not ok:
                    # under another name
                    ok = any(n['k'] == 'del' and strip(n['c'][0]).get('k') == 'var' for n in d.nodes()) and \
                        any(n['k'] == 'field' and n['n'] == fld for n in d.nodes())
                if d.get('dtor') and not ok:
                    # through a helper the destructor calls
                    for n in d.nodes():
                        h = prog.fn(n.get('fn')) if n['k'] == 'call' and n.get('fn') else None
                        if h is not None and h.cls == f.cls and h.body is not None and any(
                                m['k'] == 'del' and strip(m['c'][0]).get('k') == 'field' and strip(m['c'][0])['n'] == fld
                                for m in h.nodes()):
                            ok = True
            ck.obligation('an object made with new has an owner', f.at(at), ok, '%s::%s' % (f.cls, fld),
                          '%s::%s is given a new object, which the destructor of %s does not delete' % (f.cls, fld, f.cls))


def stray(ck, prog, fns):
    """A new object is not dereferenced on the spot, nor a released one dropped."""
    for f in fns:
        if f.get('dep'):
            continue
        exprs = [i['e'] for i in f.inits if i.get('e') is not None]
        for n in list(f.nodes()) + [y for e in exprs for y in walk(e)]:
            if n['k'] == 'new' and not n.get('place'):
                ck.count('objects made with new')
            if n['k'] == 'un' and n.get('op') == '*':
                x = strip(n['c'][0])
                if x is not None and x.get('k') == 'new' and not x.get('place'):
                    ck.obligation('an object made with new has an owner', f.at(n), False, '%s|dereferenced' % f.sig(),
                                  '%s refers to a new object that nothing owns' % f.sig())


def members(ck, prog):
    """A class that stores a reference of the XML tree releases it when it dies."""
    for r in sorted(prog.recs.values(), key=lambda r: r.q):
        if not r.mine:
            continue
        fl = [x for x in r.fields if 'Gdome' in x['ty'].get('s', '') and '*' in x['ty'].get('s', '')]
        if not fl:
            continue
        d = None
        for f in prog.real_fns():
            if f.get('dtor') and f.cls == r.q:
                d = f
        rel = {}
        if d is not None:
            for n in d.nodes():
                if n['k'] == 'call' and releases(n) and n.get('a'):
                    x = strip(n['a'][0])
                    if x is not None and x.get('k') == 'field':
                        rel[x['n']] = rel.get(x['n'], 0) + 1
        for x in fl:
            ck.obligation('raw resources released exactly once', (d.at() if d else '%s' % r.q), rel.get(x['n'], 0) == 1,
                          '%s::%s' % (r.q, x['n']), 'the destructor of %s releases its reference %s %d times' % (r.q, x['n'], rel.get(x['n'], 0)))

"""Bad input is reported and ends a program with a failing status: nothing
escapes main, and no path that reported an error goes on to claim success."""
from ..flow import Flow, Unsupported
from ..ir import walk, children, everywhere, load, apps, own, rel, REPO
from ..report import Check
from .. import throws

# What the call graph cannot see.  (function, exception type): reason
CANNOT = {
    ('ringing::extent_iterator::operator++', 'ringing::row::invalid'):
        'the vector handed to row::swap there is always a permutation',
    ('ringing::methodset::append', 'exit_exception'):
        'a methodset\'s own output interface stores methods and formats nothing',
    ('ringing::methodset::append', 'script_exception'):
        'a methodset\'s own output interface stores methods and formats nothing',
}
RESET_BELLS = 'searcher::filter(const ringing::library &)::reset_bells::~reset_bells'
for _t in ('ringing::row::invalid', 'ringing::bell::invalid', 'ringing::row_wildcard::invalid_pattern', 'ringing::invalid_named_music', 'exit_exception'):
    CANNOT[(RESET_BELLS, _t)] = 'it is given a number of bells the same arguments have already been accepted for, or none'
ADVISORY = ('warning', 'assuming', 'ignored')


def strings(n):
    for x in walk(n):
        if x.get('k') == 'str':
            yield x.get('v') or ''


def is_report(n):
    """The call reports an error in what the user gave the program."""
    if n.get('k') != 'call' or n.get('n') not in ('error', 'usage') or not (n.get('q') or '').endswith(('arg_parser::error', 'arg_parser::usage')):
        return False
    text = ' '.join(s for a in n.get('a', []) for s in strings(a)).lower()
    return not any(w in text for w in ADVISORY)


def strip(n):
    while n is not None and n.get('k') in ('cast', 'icast') and len(n.get('c') or []) == 1:
        n = n['c'][0]
    return n


class Status(Flow):
    """States: (reported, frozenset of (local variable, constant))."""

    def __init__(self, prog, fn, summ, main=False):
        super().__init__(prog)
        self.fn = fn; self.summ = summ; self.main = main
        self.bad = []
        self.tries = []

    # -- constants --
    def const(self, n, st):
        n = strip(n)
        if n is None:
            return None
        k = n.get('k')
        if k in ('bool', 'int'):
            return int(n['v'])
        if k == 'un' and n['op'] == '!':
            v = self.const(n['c'][0], st)
            return None if v is None else int(not v)
        if k == 'var':
            return dict(st[1]).get(n.get('id'))
        return None

    def put(self, st, var, v):
        d = dict(st[1]); d.pop(var, None)
        if v is not None:
            d[var] = v
        return (st[0], frozenset(d.items()))

    def scalar(self, ty):
        return (ty or {}).get('s') in ('bool', 'int', 'const bool', 'const int')

    def declare(self, v, st):
        if self.scalar(v.get('ty')):
            i = v.get('init')
            return self.assign(v.get('id'), i, st)
        return (st,)

    def assign(self, var, e, st):
        c = self.const(e, st)
        if c is not None:
            return (self.put(st, var, c),)
        e = strip(e)
        if e is not None and e.get('k') == 'call' and self.summary(e):
            # the flow of the call has already split the states
            return tuple({self.put((r or st[0], st[1]), var, v) for r, v in self.summary(e)})
        return (self.put(st, var, None),)

    def summary(self, n):
        out = set()
        for t in self.prog.targets(n):
            s = self.summ.get(t.usr, set())
            # handed no parser to report through
            for a, p in zip(n.get('a', []), t.params):
                if 'arg_parser' in (p['ty'].get('s') or '') and strip(a).get('k') == 'null':
                    s = {(False, v) for r, v in s}
            out |= s
        return out

    def leaf(self, n, st):
        k = n.get('k')
        if k == 'bin' and n['op'] == '=' and strip(n['c'][0]).get('k') == 'var':
            r = strip(n['c'][0])
            if self.scalar(r.get('ty')):
                return self.assign(r.get('id'), n['c'][1], st)
        if k == 'bin' and n['op'] in ('&=', '|=') and strip(n['c'][0]).get('k') == 'var':
            return (self.put(st, strip(n['c'][0]).get('id'), None),)
        if k == 'un' and n['op'] in ('++', '--') and strip(n['c'][0]).get('k') == 'var':
            return (self.put(st, strip(n['c'][0]).get('id'), None),)
        if k == 'call':
            if is_report(n):
                return ((True, st[1]),)
            s = self.summary(n)
            if s and not self.used(n):
                return tuple({(st[0] or r, st[1]) for r, v in s})
            for a in n.get('a', []):
                a = strip(a)
                if a is not None and a.get('k') == 'var' and self.scalar(a.get('ty')):
                    st = self.put(st, a.get('id'), None)
        return (st,)

    def used(self, n):
        """The value of the call is looked at (a condition, a return, ...)."""
        p = self.fn.parents().get(id(n))
        c = n
        while p is not None and p.get('k') in ('cast', 'icast'):
            if p.get('ty', {}).get('s') == 'void':
                return False
            c, p = p, self.fn.parents().get(id(p))
        if p is None or p.get('k') in ('block', 'case', 'default', 'try', 'rfor'):
            return False
        if p.get('k') == 'for':
            return p.get('inc') is not c and p.get('init') is not c
        if p.get('k') in ('if', 'while', 'do', 'switch'):
            return p.get('cond') is c
        if p.get('k') == 'bin' and p['op'] == ',' and p['c'][0] is c:
            return False
        return True

    def assume(self, n, truth, st):
        n = strip(n)
        c = self.const(n, st)
        if c is not None:
            return (st,) if bool(c) == truth else ()
        if n.get('k') == 'var' and self.scalar(n.get('ty')):
            return (self.put(st, n.get('id'), 1),) if truth and n['ty'].get('s') == 'bool' else \
                (self.put(st, n.get('id'), 0),) if not truth else (st,)
        if n.get('k') == 'call':
            s = self.summary(n)
            if s:
                return tuple({(st[0] or r, st[1]) for r, v in s if v is None or bool(v) == truth})
        return (st,)

    def s_try(self, n, S):
        # any call inside may take any of the handlers
        self.tries.append(n)
        outer = self.x
        self.x = type(outer)()
        try:
            S = self._scoped([n['b']], S)
            inner = self.x
        finally:
            self.x = outer
            self.tries.pop()
        outer.brk |= inner.brk; outer.cont |= inner.cont; outer.ret |= inner.ret
        pend = {s for t, s in inner.thr}
        for h in n.get('h', []):
            taken = self.many(lambda s: self.on_catch(h, s), pend)
            if taken:
                S = S | self._scoped([h['b']], taken)
        return S

    def may_throw(self, n, st):
        return (None,) if self.tries else ()

    def on_catch(self, h, st):
        return ((True, st[1]),) if self.main else (st,)

    def noreturn(self, n, st):
        if n.get('n') in ('exit', '_exit', '_Exit') and n.get('a'):
            v = self.const(n['a'][0], st)
            if st[0] and v == 0:
                self.bad.append((n, 'exits with status 0 after an error was reported'))

    def s_ret(self, n, S):
        e = strip(n.get('e'))
        self.out(e, S)
        return set()

    def out(self, e, S):
        e = strip(e)
        if e is None:
            self.x.ret |= {(s, 'void') for s in S}
            return
        k = e.get('k')
        if k == 'cond':
            T, F = self.condev(e['c'][0], S)
            self.out(e['c'][1], T); self.out(e['c'][2], F)
            return
        if k == 'bin' and e['op'] in ('&&', '||') or k == 'un' and e['op'] == '!':
            T, F = self.condev(e, S)
            self.x.ret |= {(s, 1) for s in T} | {(s, 0) for s in F}
            return
        if k == 'call' and self.summary(e):
            S = self.ev(e, S)
            self.x.ret |= {((s[0] or r, s[1]), v) for s in S for r, v in self.summary(e)}
            return
        S = self.ev(e, S)
        self.x.ret |= {(s, self.const(e, s)) for s in S}

    # returned states are (state, value); leaving scopes must look through
    def leave(self, v, st):
        if len(st) == 2 and isinstance(st[0], tuple):
            return ((self.put(st[0], v.get('id'), None), st[1]),)
        return (self.put(st, v.get('id'), None),)


def analyse(prog, fn, summ, main=False):
    F = Status(prog, fn, summ, main)
    X = F.run(fn, {(False, frozenset())})
    out = set()
    for r in X.ret:
        if isinstance(r[0], tuple):
            out.add((r[0][0], None if r[1] == 'void' else r[1]))
        else:       # fell off the end
            out.add((r[0], 0 if main else None))
    return F, out


def summaries(prog, fns):
    """usr -> {(reported, returned constant)} for functions that may report."""
    summ = {}
    calls = {}
    reporters = set()
    for f in fns:
        cs = set()
        for n in f.nodes():
            if n.get('k') == 'call':
                if is_report(n):
                    reporters.add(f.usr)
                for t in prog.targets(n):
                    cs.add(t.usr)
        calls[f.usr] = cs
    ret = lambda f: (f.get('ret') or {}).get('s')
    changed = True
    while changed:
        changed = False
        for f in fns:
            if f.usr not in reporters and calls[f.usr] & reporters:
                reporters.add(f.usr); changed = True
    rf = [f for f in fns if f.usr in reporters]
    broken = {}
    for _ in range(30):
        changed = False
        for f in rf:
            if f.n == 'main':
                continue
            try:
                F, out = analyse(prog, f, summ)
            except Unsupported as e:
                broken[f.usr] = str(e)
                continue
            if ret(f) not in ('bool',):
                out = {(r, None) for r, v in out}
            new = summ.get(f.usr, set()) | out
            if new != summ.get(f.usr):
                summ[f.usr] = new; changed = True
        if not changed:
            break
    return rf, summ, broken


def check(prop):
    C = Check(prop, 'No exception but exhaustion of memory escapes main (call-graph fixpoint of the exception types that '
              'escape each function, with catch clauses and rethrows); and path-set dataflow over every function from which '
              'arg_parser::error or usage is reachable: once an error has been reported no path returns success, exits with '
              'status 0 or lets main end with status 0, so a failed validation is never discarded; a handler in main always '
              'leads to a failing status.',
              ['messages that announce a default or a warning (containing "warning", "assuming" or "ignored") are not errors']
              + ['%s cannot raise %s: %s' % (a, b, w) for (a, b), w in CANNOT.items()])
    for app in apps():
        prog = load(app)
        T = throws.Throws(prog, CANNOT)
        C.count('programs')
        mains = [f for f in own(prog) if f.q == 'main']
        for m in mains:
            esc = {t: o for t, o in T.esc[m.usr].items() if t != 'std::bad_alloc'}
            C.obligation('nothing escapes main', '%s main' % m.at(), True if not esc else None)
            for t, (f, n) in esc.items():
                C.violation('nothing escapes main', '%s %s' % (f.at(n), f.sig()), '%s|%s|%s' % (app, t, f.q),
                            'a %s raised here can escape main of %s (%s)' % (t, app, m.at()))
        for f in own(prog) if app != apps()[0] else [f for f in prog.real_fns() if f.file.startswith(REPO)]:
            if f.body is None or not (f.d.get('dtor') or f.get('noexcept')):
                continue
            if not any(n.get('k') in ('call', 'throw', 'ctor') for n in f.nodes()):
                continue
            esc = {}
            T.scan(f, f.body, esc, [])
            esc = {t: o for t, o in esc.items() if t != 'std::bad_alloc' and not any((f.q == q or f.q.startswith(q)) and t in ts for q, ts in T.cannot.items())}
            C.obligation('nothing escapes a destructor', '%s %s' % (f.at(), f.sig()), True if not esc else None)
            for t, (g, n) in esc.items():
                C.violation('nothing escapes a destructor', '%s %s' % (g.at(n), g.sig()), '%s|%s|%s' % (app, t, f.q),
                            'a %s raised here can escape %s, which ends the program (%s)' % (t, f.q, f.at()))
        fns = [f for f in prog.real_fns() if '/apps/' in f.file]
        rf, summ, broken = summaries(prog, fns)
        for f in rf + [m for m in mains if m not in rf]:
            if not (f.file.endswith(tuple()) or '/apps/%s/' % app in f.file or app == apps()[0]):
                continue
            C.count('functions')
            is_main = f in mains
            if f.q.endswith(('arg_parser::error', 'arg_parser::usage', 'arg_parser::help', 'arg_parser::version')):
                continue
            try:
                F, out = analyse(prog, f, summ, is_main)
            except Unsupported as e:
                C.obligation('an error reported is an error returned', '%s %s' % (f.at(), f.sig()), None, msg=str(e))
                continue
            for n, msg in F.bad:
                C.violation('an error reported is an error returned', '%s %s' % (f.at(n), f.sig()), '%s|%s' % (app, f.q), msg)
            rt = (f.get('ret') or {}).get('s')
            if is_main:
                ok = None if (True, None) in out else (True, 0) not in out
                C.obligation('a reported error ends main with a failing status', '%s main' % f.at(), ok, '%s|main' % app,
                             'main of %s can return status 0 after an error was reported' % app if ok is False else 'status not known')
            elif rt == 'bool':
                ok = (True, 1) not in out
                if ok and (True, None) in out:
                    ok = None
                C.obligation('an error reported is an error returned', '%s %s' % (f.at(), f.sig()), ok, '%s|%s' % (app, f.q),
                             '%s can report an error and still return true' % f.sig())
            elif f.get('ctor'):
                ok = not any(r for r, v in out)
                C.obligation('an error reported is an error returned', '%s %s' % (f.at(), f.sig()), ok, '%s|%s' % (app, f.q),
                             '%s can report an error and carry on constructing' % f.sig())
            else:
                C.obligation('an error reported is an error returned', '%s %s' % (f.at(), f.sig()), True)
    C.floor('nothing escapes main', 8)
    C.floor('nothing escapes a destructor', 5)
    C.floor('an error reported is an error returned', 40)
    C.floor('a reported error ends main with a failing status', 8)
    return C.finish()

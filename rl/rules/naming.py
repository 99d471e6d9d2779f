"""C17: every option and function name leads to its own effect.

The places where a program ties a name typed by the user to what the program
does (the options handed to the argument parser, the functions put in front of
a Siril file, the switch over an option's own letter) are read as tables, and
the tables are checked: no name twice, no two names for the same thing under
different names, the thing that bears a name is the thing the name leads to,
what is set is looked at, and nothing that was written to be reached by a name
is left without one."""
import os
from collections import defaultdict
from multiprocessing import Pool
from ..ir import walk, children, apps, load, belongs, REPO
from ..flow import Flow, Unsupported
from ..expr import strip, ASSIGN
from ..report import Check

OPTION = 'option'


def core(n):
    """Without conversions, and without the building of a string or handle from one value."""
    n = strip(n)
    while n is not None:
        k = n.get('k')
        real = [a for a in n.get('a') or [] if not a.get('da')]
        if k == 'ctor' and len(real) == 1 and (n.get('q') or '').startswith('std::'):
            n = strip(real[0])
        elif k == 'call' and n.get('obj') is not None and not real and n.get('n', '').startswith('operator '):
            n = strip(n['obj'])
        elif k == 'call' and n.get('n') == 'get' and n.get('obj') is not None and not real:
            n = strip(n['obj'])
        elif k == 'un' and n['op'] == '&':
            n = strip(n['c'][0])
        else:
            return n
    return n


def lit(n, *kinds):
    n = core(n)
    return n.get('v') if n is not None and n.get('k') in kinds else None


def above(prog, q):
    out, todo = set(), [q]
    while todo:
        x = todo.pop()
        for b in prog.bases(x) or ():
            if b not in out:
                out.add(b)
                todo.append(b)
    return out


def is_option(prog, q):
    return q != OPTION and OPTION in above(prog, q)


def names_of(prog, n, seen=()):
    """(letter, long name) an option object is built with; None where they are not literals."""
    q = n.get('q')
    fn = prog.fn(n.get('fn'))
    if q == OPTION:
        letter = name = None
        texts = [a for a, p in zip(n.get('a') or [], n.get('pt') or (fn.params if fn else [])) if not a.get('da') and is_text(a)]
        for a, p in zip(n.get('a') or [], n.get('pt') or (fn.params if fn else [])):
            v = lit(a, 'chr', 'int')
            if v is not None and letter is None:
                letter = v
            s = lit(a, 'str')
            if s is not None and name is None:
                name = s
        if letter is None:
            return (None, None, 'info' if name is not None and len(n['a']) == 1 else '?')
        return (letter, name, 'arg' if len(texts) >= 3 else 'bare')
    if fn is None or fn.n in seen:
        return (None, None, '?')
    env = {p['id']: a for p, a in zip(fn.params, n.get('a') or [])}
    for i in fn.inits:
        if i.get('base') is None and i.get('field') is not None:
            continue
        e = i.get('e')
        if e is None or e.get('k') != 'ctor' or not (e.get('q') == OPTION or is_option(prog, e.get('q'))):
            continue
        args = []
        for a in e.get('a') or []:
            c = core(a)
            if c is not None and c.get('k') == 'var' and c.get('dk') == 'param' and c.get('id') in env:
                a = env[c['id']]
            args.append(a)
        return names_of(prog, dict(e, a=args), tuple(seen) + (fn.n,))
    return (None, None, '?')


def is_text(a):
    t = a.get('ty') or {}
    return 'basic_string' in (t.get('s') or t.get('cls') or '') or t.get('ptr') and t.get('ch') or core(a) is not None and core(a).get('k') == 'str' or 'string' in (t.get('s') or '')


def key(n):
    """A text for what an argument of an option names, or None."""
    n = core(n)
    if n is None:
        return None
    k = n.get('k')
    if k == 'field':
        return 'field ' + (n.get('q') or n.get('n'))
    if k == 'var':
        return 'var %s %s' % (n.get('q') or n.get('n'), n.get('id') if n.get('dk') != 'global' else '')
    if k == 'fref':
        return 'fn ' + str(n.get('fn') or n.get('q') or n.get('n'))
    if k in ('int', 'bool', 'chr'):
        return '%s %s' % (k, n.get('v'))
    if k == 'enum':
        return 'enum ' + (n.get('q') or n.get('n'))
    if k == 'un' and n['op'] == '*':
        return key(n['c'][0])
    if k == 'this':
        return 'this'
    if k == 'str':
        return None
    return '?'


def lvalue_param(t):
    return bool(t) and (t.get('ref') and not t.get('const') or t.get('ptr') and not t.get('const'))


class Opt:
    __slots__ = ('q', 'letter', 'name', 'targets', 'extra', 'at', 'fn', 'nodes', 'site', 'arg', 'mine')


def options(prog, g):
    out = []
    for f in prog.real_fns():
        if f.body is None or not belongs(f.file, g):
            continue
        alias = {}
        for n in f.nodes():
            for v in (n.get('c') or [] if n.get('k') == 'decl' else []):
                if (v.get('ty') or {}).get('ref') and v.get('init') is not None:
                    alias[v['id']] = v['init']
        for n in f.nodes():
            if n.get('k') != 'new' or n.get('init') is None or n['init'].get('k') != 'ctor':
                continue
            c = n['init']
            if not is_option(prog, c.get('q')):
                continue
            o = Opt()
            o.q, o.at, o.fn, o.site = c['q'], f.at(n), f, n
            o.letter, o.name, o.arg = names_of(prog, c)
            if o.arg == 'info':
                continue
            d = prog.fn(c.get('fn'))
            pt = [p['ty'] for p in d.params] if d is not None else [None] * len(c['a'])
            o.targets, o.extra, o.nodes = [], [], []
            mine = {id(y) for y in walk(n)}
            o.mine = mine
            for a, t in zip(c.get('a') or [], pt):
                x = core(a)
                for _ in range(4):
                    if x is not None and x.get('k') == 'var' and x.get('id') in alias and x.get('dk') == 'local':
                        mine |= {id(y) for y in walk(alias[x['id']])}
                        x = core(alias[x['id']])
                if x is None:
                    continue
                kk = key(x)
                if x.get('k') in ('field', 'var') and (t is None or lvalue_param(t)):
                    o.targets.append(kk)
                    o.nodes.append(x)
                elif x.get('k') == 'fref':
                    o.extra.append(kk)
                elif kk is not None and x.get('k') not in ('str',):
                    if lit(x, 'chr') is not None and x is core(c['a'][0]):
                        continue
                    o.extra.append(kk)
                elif o.targets and lit(x, 'str') is not None:
                    o.extra.append('str ' + lit(x, 'str'))
            out.append(o)
    return out


def plain(s):
    return (s or '').replace('-', '_').lower()


def words(s):
    return set(plain(s).split('_'))


def show(l):
    if isinstance(l, str):
        return l
    return chr(l) if isinstance(l, int) and 32 <= l < 127 else repr(l)


def code(v):
    if isinstance(v, str):
        return ord(v) if len(v) == 1 else v
    return v


def check_options(prog, g, out):
    opts = options(prog, g)
    if not opts:
        return
    where = lambda o: o.at
    seen = {}
    for o in opts:
        l = code(o.letter)
        for kind, v in (('letter', l if isinstance(l, int) and l >= 32 else None), ('name', o.name or None)):
            if v is None:
                continue
            p = seen.setdefault((kind, v), o)
            ok = p is o
            t = show(v) if kind == 'letter' else '--' + v
            out.append(('once', o.at, ok, '%s|%s' % (g, t), 'the option %s of %s is given twice: the second is never reached (the first is at %s)' % (t, g, p.at)))
    # something of its own
    tgt = {}
    for o in opts:
        if not o.targets and not any(str(x).startswith('fn ') for x in o.extra):
            continue
        k = (o.q, tuple(o.targets), tuple(x for x in o.extra if x is not None))
        known = '?' not in k[2] and (o.targets or any(str(x).startswith('fn ') for x in o.extra))
        p = tgt.setdefault(k, o)
        ok = True if p is o else (False if known and None not in o.extra else None)
        out.append(('own', o.at, ok if known else None, '%s|%s' % (g, o.name or show(o.letter)),
                    'the options --%s and --%s of %s set the same thing in the same way' % (p.name, o.name, g)))
    # what bears the name is what is set
    bound = {}
    for o in opts:
        for t in o.targets:
            if t.startswith('field ') or t.startswith('var '):
                bound.setdefault(plain(t.split(' ')[1].split('::')[-1]), set()).add(t)
    owners = {t.split(' ')[1].rsplit('::', 1)[0] for o in opts for t in o.targets if t.startswith('field ')}
    for q in owners:
        r = prog.rec_q.get(q)
        for x in (r.fields if r is not None else []):
            bound.setdefault(plain(x['n']), set())
    for o in opts:
        ts = [t for t in o.targets if t.startswith(('field ', 'var '))]
        if not o.name or len(ts) != 1 or plain(o.name) not in bound:
            continue
        have = plain(ts[0].split(' ')[1].split('::')[-1])
        want = plain(o.name)
        ok = have == want or have.startswith(want) and have[len(want):].lstrip('_') in ('str', 'strs', 'string', 'strings', 'opt')
        out.append(('named', o.at, ok, '%s|%s' % (g, o.name), 'the option --%s of %s sets %s, although there is a setting %s' % (o.name, g, have, want)))
        # the function that bears its name
    fns = {}
    for o in opts:
        for x in o.extra:
            if x and x.startswith('fn '):
                d = prog.fn(x[3:])
                if d is not None:
                    fns[id(o)] = (o, plain(d.q.split('::')[-1]))
    for o, f in fns.values():
        for o2, f2 in fns.values():
            if o2 is not o and f2 != f and o.name and words(o.name) <= words(f2) and not (o2.name and words(o2.name) <= words(f2)):
                out.append(('named', o.at, words(o.name) <= words(f), '%s|%s' % (g, o.name), 'the option --%s of %s calls %s, although there is %s' % (o.name, g, f, f2)))
    # an argument is taken where it is used
    kinds = defaultdict(set)
    for o in opts:
        kinds[o.q].add(o.arg)
    for o in opts:
        if len(kinds[o.q]) > 1:
            continue           # one class for options of all kinds: see the switch over its letter
        if o.arg == '?' or not o.letter and not o.name or code(o.letter) in (0, '') and not o.name:
            continue
        p = [f for f in prog.real_fns() if f.cls == o.q and f.n == 'process' and f.body is not None and len(f.params) == 2]
        if len(p) != 1 or any(n.get('k') == 'switch' for n in p[0].nodes()):
            continue
        uses = any(n.get('k') == 'var' and n.get('dk') == 'param' and n.get('id') == p[0].params[0]['id'] for n in p[0].nodes())
        out.append(('argument', o.at, uses == (o.arg == 'arg'), '%s|%s' % (g, o.name or show(o.letter)),
                    'the option --%s of %s %s' % (o.name, g, 'takes an argument that is not used' if not uses else 'uses an argument it does not take')))
    # what is set is looked at
    mine = set().union(*[o.mine for o in opts])
    used = set()
    want = {t for o in opts for t in o.targets}
    for f in prog.real_fns():
        if f.body is None or not belongs(f.file, g) and not f.file.startswith('apps/'):
            pass
        if f.body is None:
            continue
        roots = [f.body] + [i['e'] for i in f.inits if i.get('e')]
        pure = set()
        for r in roots:
            for n in walk(r):
                if n.get('k') == 'bin' and n['op'] in ASSIGN:
                    x = core(n['c'][0])
                    if x is not None:
                        pure.add(id(x))
                elif n.get('k') == 'call' and n.get('op') == '=' and n.get('obj') is not None:
                    x = core(n['obj'])
                    if x is not None:
                        pure.add(id(x))
        for r in roots:
            for n in walk(r):
                if n.get('k') in ('field', 'var') and id(n) not in mine and id(n) not in pure:
                    kk = key(n)
                    if kk in want:
                        used.add(kk)
    done = set()
    for o in opts:
        for t, x in zip(o.targets, o.nodes):
            if t in done or not t.startswith('field '):
                continue
            done.add(t)
            # an object handed over whole has its fields set one by one
            out.append(('consulted', o.at, t in used, '%s|%s' % (g, t), '%s, set by the option --%s of %s, is not looked at by anything' % (t, o.name, g)))
    # the switch over an option's own letter
    letters = defaultdict(dict)
    for o in opts:
        letters[o.q][code(o.letter)] = o
    for f in prog.real_fns():
        if f.body is None or f.cls not in letters or f.n != 'process':
            continue
        for n in f.nodes():
            if n.get('k') != 'switch':
                continue
            c = core(n['cond'])
            if c is None or c.get('k') != 'field' or (c.get('q') or '').split('::')[-1] != 'shortname':
                continue
            cases = {code(x.get('cv')) if x.get('cv') is not None else None: x for x in walk(n['b']) if x.get('k') == 'case'}
            # a default that refuses what it is given is no handling of it
            default = False
            for labels, stmts in segments(n['b']):
                if any(x.get('k') == 'default' for x in labels):
                    default = not any(y.get('k') == 'throw' or y.get('k') == 'ret' and any(lit(z, 'bool') is False for z in children(y))
                                      or y.get('k') == 'call' and (y.get('nr') or y.get('q') == 'option::process') for x in stmts for y in walk(x))
            own = letters[f.cls]
            inner = {id(y) for m in walk(n['b']) if m.get('k') == 'switch' for y in walk(m)}
            cases = {code(x.get('cv')): x for x in walk(n['b']) if x.get('k') == 'case' and id(x) not in inner}
            if None in own or any(not isinstance(k, int) for k in list(own) + list(cases)):
                out.append(('handled', f.at(n), None, f.q, 'letters not known'))
                continue
            body = {id(x) for x in walk(n)}
            apart = {code(x.get('v')) for x in f.nodes() if x.get('k') in ('chr', 'int') and id(x) not in body}
            for l, o in sorted(own.items()):
                if l not in cases and l in apart:
                    continue
                inner_default = default and not l in cases
                out.append(('handled', o.at, True if l in cases else (None if inner_default else False), '%s|%s' % (g, o.name or l),
                            'the option --%s of %s has no case in %s' % (o.name, g, f.q)))
            for l, x in sorted(cases.items()):
                out.append(('handled', f.at(x), l in own, '%s|case %s' % (g, show(l)), 'the case %s in %s is for an option that %s does not have' % (show(l), f.q, g)))
            named_cases(prog, g, f, n, own, out)


def segments(body):
    """[(labels, statements reached from them up to the next break or return)] of a switch body."""
    stmts = body.get('c', []) if body and body.get('k') == 'block' else [body]
    segs, labels, cur, open_ = [], [], [], []
    for st in stmts:
        new = []
        while st is not None and st.get('k') in ('case', 'default'):
            new.append(st)
            st = st.get('s')
        if new:
            if open_ and not open_[-1][2]:
                open_[-1][0].extend(new) if not open_[-1][1] else open_.append([new, [], False])
            else:
                open_.append([new, [], False])
        if st is None or not open_:
            continue
        open_[-1][1].append(st)
        if st.get('k') in ('break', 'ret'):
            open_[-1][2] = True
    return [(a, b) for a, b, _ in open_]


def named_cases(prog, g, f, sw, own, out):
    segs = segments(sw['b'])
    written, recs = [], set()
    def inside(n, seen=()):
        yield n
        c = prog.fn(n['fn']) if n.get('k') == 'call' and n.get('fn') else None
        if c is not None and c.body is not None and c.n not in seen and len(seen) < 3 and belongs(c.file, g) and n.get('op') is None:
            for x in c.nodes():
                yield from inside(x, seen + (c.n,))
    for labels, stmts in segs:
        w = set()
        for s in stmts:
            for n in (y for x in walk(s) for y in inside(x)):
                tg = []
                if n.get('k') == 'bin' and n['op'] in ASSIGN:
                    tg = [n['c'][0]]
                elif n.get('k') == 'call' and n.get('op') == '=' and n.get('obj') is not None:
                    tg = [n['obj']]
                elif n.get('k') == 'call':
                    tg = n.get('a') or []
                    if n.get('obj') is not None and not n.get('mc'):
                        tg = tg + [n['obj']]
                for t in tg:
                    x = core(t)
                    while x is not None and x.get('k') == 'field':
                        w.add(x['n'])
                        if x.get('q'):
                            recs.add(x['q'].rsplit('::', 1)[0])
                        x = core(x['b'])
        written.append((labels, w))
    par = f.params[0]['id']
    for labels, stmts in segs:
        uses = any(n.get('k') == 'var' and n.get('dk') == 'param' and n.get('id') == par for s in stmts for n in walk(s))
        if not uses and any(n.get('k') == 'call' and n.get('fn') and prog.fn(n['fn']) is not None and prog.fn(n['fn']).cls == f.cls and n['fn'] != f.usr
                            for s in stmts for n in walk(s)):
            continue
        for c in labels:
            o = own.get(code(c.get('cv')))
            if o is None or o.arg == '?' or code(o.letter) == 0:
                continue
            out.append(('argument', f.at(c), uses == (o.arg == 'arg'), '%s|%s' % (g, o.name or show(o.letter)),
                        'the option --%s of %s %s' % (o.name, g, 'takes an argument that is not used' if not uses else 'uses an argument it does not take')))
    every = set().union(*[w for _, w in written]) if written else set()
    for q in recs:
        r = prog.rec_q.get(q)
        every |= {x['n'] for x in (r.fields if r is not None else [])}
    for labels, w in written:
        for c in labels:
            o = own.get(code(c.get('cv')))
            if o is None or not o.name:
                continue
            nm = plain(o.name)
            if nm in {plain(x) for x in every}:
                out.append(('named', f.at(c), nm in {plain(x) for x in w}, '%s|%s' % (g, o.name),
                            'the case for the option --%s of %s does not set %s' % (o.name, g, nm)))


class Effects:
    """What of an expression outlives the call."""
    def outside(self, n):
        n = core(n)
        while n is not None:
            k = n.get('k')
            if k == 'this':
                return True
            if k == 'var':
                return n.get('dk') in ('global', 'static')
            if k == 'field':
                n = core(n['b'])
                if n is None:
                    return True
                continue
            if k == 'call' and n.get('obj') is not None:
                n = core(n['obj'])
                continue
            if k in ('idx', 'un'):
                n = core(n['c'][0])
                continue
            return False
        return False


def may_effect(prog, f, n, memo):
    """Does this node itself (not its children) do something beyond f's own variables?"""
    k = n.get('k')
    e = memo['e']
    if k == 'bin' and n['op'] in ASSIGN:
        return e.outside(n['c'][0])
    if k == 'un' and n['op'] in ('pre++', 'pre--', 'post++', 'post--'):
        return e.outside(n['c'][0])
    if k == 'call':
        if n.get('nr') or 'lambda' in (n.get('q') or ''):
            return True
        if n.get('obj') is not None and not n.get('mc') and not n.get('static') and e.outside(n['obj']):
            return True
        for a in n.get('a') or []:
            x = core(a)
            if x is not None and x.get('k') in ('field', 'var', 'idx', 'un') and e.outside(x):
                pts = n.get('pt') or []
                i = n['a'].index(a)
                t = pts[i] if i < len(pts) else None
                if t is None or lvalue_param(t):
                    return True
        if n.get('fn') is None:
            return True            # through a pointer: not known, so taken as doing something
        c = n.get('fn') and prog.fn(n['fn'])
        if c is not None and c.body is not None:
            if c.n in memo['in']:
                return True
            memo['in'].add(c.n)
            r = any(may_effect(prog, c, x, memo) for x in c.nodes())
            memo['in'].discard(c.n)
            return r
        if c is None and n.get('obj') is None and not (n.get('q') or '').startswith('std::'):
            return True
    return False


class Done(Flow):
    """State: whether anything that outlives the call has been done."""
    def __init__(self, prog, f, e):
        super().__init__(prog)
        self.f, self.e = f, e
        self.bad = []
        self.loops = set()
        for n in f.nodes():
            if n.get('k') in ('for', 'while', 'do') and n.get('cond') is not None:
                self.loops |= {id(x) for x in walk(n['cond'])}
        self.cache = {}

    def leaf(self, n, st):
        if st:
            return (st,)
        i = id(n)
        if i not in self.cache:
            self.cache[i] = may_effect(self.prog, self.f, n, {'e': self.e, 'in': set()})
        return (self.cache[i],)

    def declare(self, v, st):
        t = v.get('ty') or {}
        return (True,) if v.get('init') is not None and lvalue_param(t) and self.e.outside(v['init']) else (st,)

    def loop_var(self, v, st):
        return (True,)

    def assume(self, n, truth, st):
        # whatever is the case already, or was not given at all, need not be done again
        if id(n) in self.loops:
            return (True,)
        for x in walk(n):
            if x.get('k') == 'call' and (x.get('n') in ('empty', 'size', 'length') or x.get('fn') is None):
                return (True,)
            if x.get('k') == 'field' and self.e.outside(x) and x.get('n') not in ('flags', 'shortname', 'longname'):
                return (True,)
        return (st,)

    def assume_case(self, cond, case, st):
        return (True,) if case['k'] in ('nodefault', 'default') else (st,)

    def noreturn(self, n, st):
        return True if n.get('nr') else False

    def on_return(self, n, st):
        es = [c for c in children(n)] if n is not None else []
        if not st and es:
            x = core(es[0])
            if x is not None and x.get('k') == 'bool' and x.get('v'):
                self.bad.append(n)
        return (st,)


def check_effects(prog, g, out):
    for f in prog.real_fns():
        if f.body is None or f.n != 'process' or not is_option(prog, f.cls or ''):
            continue
        if len(f.params) != 2:
            continue
        d = Done(prog, f, Effects())
        try:
            d.run(f, {False})
        except Unsupported:
            out.append(('done', f.at(f.body), None, f.q, '%s is not followed' % f.q))
            continue
        if d.bad:
            for n in d.bad[:1]:
                out.append(('done', f.at(n), False, f.q, '%s accepts what the option is given here without having done anything with it' % f.q))
        else:
            out.append(('done', f.at(f.body), True, f.q, ''))


def check_functions(prog, g, out):
    """Names put in front of a Siril file: ("name", ... new Implementation(args))."""
    reg = []                          # (name, class, args text, at)
    made = set()
    for f in prog.real_fns():
        if f.body is None:
            continue
        roots = [f.body] + [i['e'] for i in f.inits if i.get('e')]

        def go(n, name, f=f):
            if n is None:
                return
            k = n.get('k')
            if k in ('ctor', 'call'):
                here = [lit(a, 'str') for a in n.get('a') or []]
                here = [h for h in here if h is not None]
                others = [a for a in n.get('a') or [] if not a.get('da') and lit(a, 'str') is None]
                if not (n.get('q') or '').startswith('std::basic_string'):
                    name = here[0] if len(here) == 1 and others else (name if not here else None)
            if k == 'new' and n.get('init') is not None and n['init'].get('k') == 'ctor':
                c = n['init']
                made.add(c.get('q'))
                if name is not None and 'fnnode' in {b.split('::')[-1] for b in above(prog, c.get('q'))}:
                    reg.append((name, c['q'], tuple(key(a) for a in c.get('a') or []), f.at(n)))
            elif k == 'ctor':
                made.add(n.get('q'))
            for ch in children(n):
                go(ch, name)
        for r in roots:
            go(r, None)
        for n in f.nodes():
            if n.get('k') == 'ctor':
                made.add(n.get('q'))
    if not reg:
        return
    seen, imp = {}, {}
    for name, q, args, at in reg:
        p = seen.setdefault(name, at)
        out.append(('once', at, p is at, '%s|%s' % (g, name), 'the function %s is given twice (first at %s)' % (name, p)))
        k = (q, args)
        p = imp.setdefault(k, name)
        out.append(('own', at, (p == name) if '?' not in args and None not in args else None, '%s|%s' % (g, name),
                    'the functions %s and %s have one and the same implementation, %s' % (p, name, q)))
    byname = {}
    for name, q, args, at in reg:
        byname.setdefault(q, []).append((name, args, at))
    # an enumerator that names the function
    for q, l in byname.items():
        for name, args, at in l:
            for a in args:
                if not a or not a.startswith('enum '):
                    continue
                words = [w for w in plain(a.split('::')[-1]).split('_') if len(w) > 3]
                for w in words:
                    bearers = [x for x, _, _ in l if w in plain(x)]
                    if len(bearers) == 1:
                        out.append(('named', at, bearers[0] == name, '%s|%s' % (g, name),
                                    'the function %s is made with %s, and %s is not' % (name, a.split(' ')[1], bearers[0])))
    # the name an implementation prints itself with
    for f in prog.real_fns():
        if f.body is None or f.n != 'debug_print' or 'fnnode' not in {b.split('::')[-1] for b in above(prog, f.cls or '')}:
            continue
        lits = [n['v'] for n in f.nodes() if n.get('k') == 'str']
        names = [x for x, _, _ in byname.get(f.cls, [])]
        if len(lits) == 1 and lits[0] in seen:
            out.append(('named', f.at(f.body), lits[0] in names, '%s|%s' % (g, f.cls),
                        '%s calls itself %s, but the function %s is another class' % (f.cls, lits[0], lits[0])))
    for q, r in prog.rec_q.items():
        if 'fnnode' not in {b.split('::')[-1] for b in above(prog, q)} or r.d.get('abs'):
            continue
        if not (r.file or '').endswith('.cpp'):
            continue
        out.append(('reached', '%s:%s' % (os.path.relpath(r.file, REPO) if os.path.isabs(r.file) else r.file, r.line), q in made, '%s|%s' % (g, q), '%s is an implementation no name leads to' % q))


def one(g):
    prog = load(g)
    out = []
    check_options(prog, g, out)
    check_effects(prog, g, out)
    check_functions(prog, g, out)
    return g, out


def check(prop):
    ck = Check(prop, 'the tables that tie option letters, option names and Siril function names to what they do: no name twice, nothing under two names, the setting or implementation that bears a name is the one it leads to, what is set is read, every case and implementation has a name',
               [])
    groups = list(apps())
    with Pool(6) as p:
        res = p.map(one, groups, chunksize=1)
    seen = {}
    for g, out in res:
        ck.count('programs')
        for clause, at, ok, k, msg in out:
            kk = (clause, k, at)
            if kk in seen and (seen[kk][0] is False or ok is not False):
                continue
            seen[kk] = (ok, msg)
    for (clause, k, at), (ok, msg) in sorted(seen.items(), key=repr):
        ck.obligation(clause, at, ok, key=k, msg=msg)
    ck.floor('once', 40)
    ck.floor('own', 20)
    ck.floor('consulted', 20)
    ck.floor('named', 10)
    return ck.finish()

"""No answer depends on earlier calls: process-wide mutable state, values latched
by the first call, remembered results and derived data."""
import os
from ..flow import Flow, Unsupported
from ..ir import walk, children, load, everywhere, REPO
from ..expr import strip, lvroot, ASSIGN, const_locals
from ..report import Check

# Process-wide state that exists by design: (file, type) -> (how many, what for).
# Names are not part of the inventory, so renaming is not a change; what counts
# is how many such variables a file has.
DESIGN = {
    ('ringing/bell.cpp', 'unsigned int'): (1, 'number of bell symbols'),
    ('ringing/bell.cpp', 'const char *'): (2, 'bell symbols, set by set_symbols'),
    ('ringing/bell.cpp', 'int (*)(int)'): (1, 'case mapping of bell symbols'),
    ('ringing/method.cpp', 'const char *'): (4, 'words in names, set by set_untitled'),
    ('ringing/method.cpp', 'std::string'): (1, 'holds the word set by set_untitled'),
    ('ringing/library.cpp', 'std::list'): (1, 'registered library formats'),
    ('ringing/library.cpp', 'std::string'): (1, 'library search path'),
    ('ringing/libfacet.cpp', 'int'): (1, 'next facet number'),
    ('ringing/mathutils.cpp', 'int (*)()'): (1, 'random source, set by random_fn'),
    ('ringing/mathutils.cpp', 'int'): (1, 'range of the random source'),
    ('ringing/pdf_fonts.cpp', 'std::map'): (1, 'font widths, filled once'),
    ('apps/utils/stringutils.cpp', 'int'): (1, 'width of the terminal'),
    ('apps/fextent/fextent.cpp', 'unsigned long'): (1, 'length of the last status line'),
    ('apps/gsiril/proof_context.cpp', 'bool'): (1, 'terminal initialised'),
    ('apps/methsearch/output.cpp', 'int'): (1, 'output option'),
    ('apps/methsearch/output.cpp', 'const char *'): (1, 'output option'),
    ('apps/methsearch/output.cpp', 'bool'): (1, 'output option'),
    ('apps/methsearch/output.cpp', 'unsigned long long'): (1, 'serial number of the output'),
    ('apps/methsearch/expression.cpp', 'int'): (1, 'status of the last command'),
    ('apps/methsearch/expression.cpp', 'std::vector'): (1, 'the parsed expressions'),
    ('apps/methsearch/format.cpp', 'bool'): (5, 'output options'),
    ('apps/methsearch/format.cpp', 'int'): (1, 'output option'),
    ('apps/methsearch/format.cpp', 'statistics'): (1, 'the statistics of this run'),
    ('apps/methsearch/libraries.cpp', 'method_libraries'): (1, 'the libraries of this run'),
    ('apps/methsearch/libraries.cpp', 'ringing::methodset'): (2, 'the libraries of this run'),
    ('apps/methsearch/music.cpp', 'musical_analysis::patterns'): (1, 'the music of this run'),
    ('apps/methsearch/music.cpp', 'musical_analysis::analyser'): (1, 'the music of this run'),
    ('apps/psline/psline.cpp', 'arguments'): (1, 'the arguments of this run'),
    ('apps/psline/psline.cpp', 'std::string'): (1, 'program name'),
    ('apps/spliceplan/spliceplan.cpp', 'int'): (1, 'serial number of the plan'),
    ('apps/touchsearch/main.cpp', 'unsigned long long'): (1, 'number of touches found'),
}


def typ(t):
    s = t.get('cls') or t.get('s') or ''
    if s.startswith(('std::basic_string<', 'std::__cxx11::basic_string<')):
        return 'std::string'
    if s.startswith('std::'):
        return s.split('<')[0].replace('__cxx11::', '')
    return s


def const(t):
    if t.get('const'):
        return True
    e = t
    while e.get('arr') and e.get('pt'):
        e = e['pt']
        if e.get('const'):
            return True
    return (t.get('s') or '').startswith('const ') and not t.get('ptr')


def varkey(n):
    return n.get('usr') or n.get('id')


def statics(prog, fns):
    """Static-storage variables of the group: usr/id -> (decl, function)."""
    out = {}
    for g in prog.globals.values():
        out[g['usr']] = (g, None)
    return out


def isstatic(n):
    return n.get('k') == 'var' and n.get('dk') in ('static', 'global')


def modifies(prog, f):
    """id of static variable -> nodes of f that modify it."""
    from ..expr import writes
    out = {}
    for n in f.nodes():
        k = n.get('k')
        tg = []
        if k == 'bin' and n['op'] in ASSIGN:
            tg = [n['c'][0]]
        elif k == 'un' and n['op'] in ('pre++', 'pre--', 'post++', 'post--'):
            tg = [n['c'][0]]
        elif k == 'call':
            if n.get('obj') is not None and not n.get('mc') and n.get('n') not in ('begin', 'end', 'find', 'back', 'front', 'size', 'empty', 'operator->', 'operator*', 'get', 'c_str'):
                tg.append(n['obj'])
            t = prog.fn(n.get('fn')) if n.get('fn') else None
            ps = [p['ty'] for p in t.params] if t is not None else []
            for i, a in enumerate(n.get('a') or []):
                ty = ps[i] if i < len(ps) else None
                if ty is not None and ty.get('ref') and not ty.get('cref') and not (ty.get('s') or '').startswith('const ') and not (ty.get('pt') or ty).get('const'):
                    tg.append(a)
                if n.get('op') in ASSIGN + ('++', '--') and i == 0 and n.get('obj') is None:
                    tg.append(a)
        for t in tg:
            for x in walk_lv(t):
                if isstatic(x):
                    out.setdefault(x.get('usr') or x.get('id'), []).append(n)
    return out


def walk_lv(n):
    n = strip(n)
    while n is not None:
        yield n
        k = n.get('k')
        if k == 'idx':
            n = strip(n['c'][0])
        elif k == 'field':
            n = strip(n['b'])
        elif k == 'un' and n['op'] in ('*', '&', 'pre++', 'pre--'):
            n = strip(n['c'][0])
        elif k == 'call' and n.get('obj') is not None and n.get('op') in ('[]', '*', '->'):
            n = strip(n['obj'])
        elif k == 'call' and n.get('op') in ('[]', '*', '->', '=') and n.get('a'):
            n = strip(n['a'][0])
        else:
            return


def latched(prog, f, ck):
    """A function's static variable keeps what the first call put into it."""
    cl = None
    for n in f.nodes():
        if n.get('k') != 'decl':
            continue
        for v in n['c']:
            if not v.get('static'):
                continue
            i = v.get('init')
            bad = None
            if i is not None:
                dep = None
                for x in walk(i):
                    if x.get('k') == 'var' and x['dk'] == 'param':
                        dep = 'argument %s' % x['n']
                    elif x.get('k') == 'this':
                        dep = 'the object it is called on'
                    elif x.get('k') == 'var' and x['dk'] == 'local':
                        cl = cl if cl is not None else const_locals(prog, f)
                        src = cl.get(x['id'])
                        if src is None:
                            dep = 'local %s' % x['n']
                        else:
                            for y in walk(src['init']):
                                if y.get('k') == 'this' or y.get('k') == 'var' and y['dk'] in ('param', 'local'):
                                    dep = 'local %s' % x['n']
                # a template's or program's own constant is fine: nothing of a call is in it
                if dep and f.n != 'main':
                    bad = 'the first call decides what it holds for good (it is computed from %s)' % dep
            ck.count('function-static variables')
            ck.obligation('latched', '%s:%s' % (f.at(), v['n']), not bad, key='%s|%s' % (f.sig().split('(')[0], v['n']), msg='%s: static %s: %s' % (f.n, v['n'], bad))


class Fresh(Flow):
    """Which of the function's static variables this call has given a value."""

    def __init__(self, prog, ids):
        super().__init__(prog)
        self.ids = ids
        self.old = {}

    def leaf(self, n, st):
        k = n.get('k')
        if k == 'bin' and n['op'] == '=':
            l = strip(n['c'][0])
            if isstatic(l) and varkey(l) in self.ids:
                return (st | {varkey(l)},)
        if k == 'call':
            o = strip(n['obj']) if n.get('obj') is not None else None
            if o is not None and isstatic(o) and varkey(o) in self.ids and (n.get('op') == '=' or n.get('n') in ('clear', 'assign')):
                return (st | {varkey(o)},)
            # filled by the callee (sprintf into a buffer, swap, ...)
            if n.get('obj') is None:
                for a in n.get('a') or []:
                    for x in walk_lv(a):
                        if isstatic(x) and varkey(x) in self.ids and (x.get('ty') or {}).get('arr'):
                            return (st | {varkey(x)},)
        if isstatic(n) and varkey(n) in self.ids and varkey(n) not in st:
            self.old.setdefault(varkey(n), n)
        return (st,)


class Reads(Fresh):
    """As Fresh, but assignments' own left sides are not reads."""

    def ev(self, n, S):
        if n is not None and S:
            k = n.get('k')
            if k == 'bin' and n['op'] == '=':
                l = strip(n['c'][0])
                if isstatic(l) and varkey(l) in self.ids:
                    S = self.ev(n['c'][1], S)
                    return self.many(lambda s: self.leaf(n, s), S)
                if l.get('k') == 'idx' and isstatic(strip(l['c'][0])) and varkey(strip(l['c'][0])) in self.ids:
                    # element by element: taken as given a value
                    S = self.ev(n['c'][1], S)
                    S = self.ev(l['c'][1], S)
                    return {s | {varkey(strip(l['c'][0]))} for s in S}
            if k == 'call' and n.get('obj') is not None and (n.get('op') == '=' or n.get('n') in ('clear', 'assign')):
                o = strip(n['obj'])
                if isstatic(o) and varkey(o) in self.ids:
                    for a in n.get('a') or []:
                        S = self.ev(a, S)
                    return self.many(lambda s: self.leaf(n, s), S)
            if k == 'call' and n.get('obj') is None and any(isstatic(x) and varkey(x) in self.ids and (x.get('ty') or {}).get('arr') for a in (n.get('a') or []) for x in walk_lv(a)):
                for a in n.get('a') or []:
                    if not any(isstatic(x) and varkey(x) in self.ids for x in walk_lv(a)):
                        S = self.ev(a, S)
                return self.many(lambda s: self.leaf(n, s), S)
            if k == 'sizeof':
                return S
        return super().ev(n, S)


def rel(path):
    return path[len(REPO) + 1:] if path.startswith(REPO + '/') else path


def accessor(f):
    """static T x; return x;"""
    b = (f.body or {}).get('c') or []
    return not f.params and len(b) == 2 and b[0].get('k') == 'decl' and b[1].get('k') == 'ret'


def process_wide(ck):
    """Every mutable static-storage variable is part of the design, or holds
    nothing that one call leaves for the next."""
    seen, found = set(), {}
    for prog, fns in everywhere():
        mods, users = {}, {}
        for f in fns:
            for u, ns in modifies(prog, f).items():
                mods.setdefault(u, []).append((f, ns))
            for n in f.nodes():
                if isstatic(n):
                    users.setdefault(varkey(n), []).append(f)
        owner = {}
        for f in fns:
            for n in f.nodes():
                if n.get('k') == 'decl':
                    for v in n['c']:
                        if v.get('static'):
                            owner[v['n'], f.file, v.get('id')] = (f, v)
        for g in prog.globals.values():
            file = g.get('file') or ''
            if not str(file).startswith(REPO) or not g.get('def'):
                continue
            k = (g['usr'],)
            if k in seen or const(g['ty']):
                continue
            seen.add(k)
            found.setdefault((rel(file), typ(g['ty'])), []).append((g, prog, mods, users))
    return found


def check(prop):
    ck = Check(prop, 'Every variable of static storage is constant, part of the process-wide design, or given a value by '
               'each call before it is read; none is initialised from what one call was given; a remembered result is found '
               'by everything it was computed from; derived data is recalculated whenever its source changes.',
               ['the inventory of process-wide state by file and type (rl/rules/hidden.py)'])
    for prog, fns in everywhere():
        for f in fns:
            latched(prog, f, ck)
    found = process_wide(ck)
    files = {}
    for (file, ty), gs in sorted(found.items()):
        files.setdefault(file, []).extend((ty, g) for g in gs)
    for file, gs in sorted(files.items()):
        allow = sum(v[0] for k, v in DESIGN.items() if k[0] == file)
        live = []
        for ty, (g, prog, mods, users) in gs:
            u = g['usr']
            local = g.get('slocal')
            key = u if u in mods or u in users else g.get('id')
            wr = mods.get(u, [])
            rd = users.get(u, [])
            where = '%s:%s' % (file, g.get('line'))
            ck.count('mutable static variables')
            if not wr:
                ck.obligation('process-wide', where, True)
                continue
            # does any call read what an earlier one left?
            old, unk = None, None
            for f in {id(x): x for x in rd}.values():
                fl = Reads(prog, {u})
                try:
                    fl.run(f, {frozenset()})
                except Unsupported as e:
                    unk = str(e)
                if u in fl.old:
                    old = f
            if old is None:
                ck.obligation('process-wide', where, None if unk else True, msg=unk)
                continue
            if keyed(prog, u, rd):
                ck.obligation('remembered', where, True)
                continue
            guard = memo_guard(prog, u, rd, mods)
            if guard is not None:
                ok, why = guard
                ck.obligation('remembered', where, ok, key='%s|%s' % (file, ty), msg='%s: %s' % (g.get('q') or g.get('n'), why))
                continue
            if accessor(old) and allow == 0:
                ck.obligation('process-wide', where, None, msg='%s: reached only through %s' % (g.get('n'), old.n))
                continue
            live.append((g, old, where, ty))
        for g, old, where, ty in live:
            # the types that the design does not have are the intruders
            n = sum(1 for x in live if x[3] == ty)
            ok = len(live) <= allow or n <= DESIGN.get((file, ty), (0, ''))[0]
            ck.obligation('process-wide', where, ok, key='%s|%s' % (file, ty),
                          msg='%s (%s): %s uses what an earlier call left in it' % ((g.get('q') or g.get('n')), ty, old.n))
    for prog, fns in everywhere():
        for f in fns:
            memo_maps(prog, f, ck)
        derived(prog, fns, ck)
    ck.floor('process-wide', 15)
    ck.floor('latched', 10)
    return ck.finish()


def keyed(prog, u, rd):
    """Every use is a look-up by all the arguments of the function."""
    for f in {id(x): x for x in rd}.values():
        if not f.params or any(n.get('k') == 'this' for n in f.nodes()):
            return False
        need = {x['id'] for x in f.nodes() if x.get('k') == 'var' and x['dk'] == 'param'}
        for n in f.nodes():
            hit = [c for c in children(n) if isstatic(strip(c)) and varkey(strip(c)) == u]
            if not hit:
                continue
            if n.get('k') != 'call' or 'map' not in (n.get('rec') or ''):
                return False
            if n.get('n') in ('end', 'begin', 'size'):
                continue
            if not (n.get('op') == '[]' or n.get('n') in ('find', 'insert', 'emplace', 'count')) or not n.get('a'):
                return False
            if need - {x['id'] for x in walk(n['a'][0]) if x.get('k') == 'var' and x['dk'] == 'param'}:
                return False
    return True


def memo_guard(prog, u, rd, mods):
    """A static that a function returns when it still fits: (ok, why), or None."""
    for f in {id(x): x for x in rd}.values():
        if not f.params or any(m[0] is f for m in mods.get(u, [])):
            continue
        hit = [n for n in f.nodes() if n.get('k') == 'ret' and n.get('e') and returns(n['e'], u)]
        if not hit:
            continue
        # what the other paths compute from
        need = {x['id'] for x in f.nodes() if x.get('k') == 'var' and x['dk'] == 'param'}
        fl = Asked(prog, f, hit)
        try:
            fl.run(f, {frozenset()})
        except Unsupported:
            return None, 'too complicated'
        miss = need - fl.asked if fl.asked is not None else set()
        if miss:
            p = [p.get('n') for p in f.params if p.get('id') in miss] or ['its arguments']
            return False, '%s returns what was remembered whatever %s is' % (f.n, p[0])
        return True, ''
    return None


def returns(e, u):
    if any(isstatic(x) and varkey(x) == u for x in walk_lv(e)):
        return True
    d = strip(e)
    while d.get('k') == 'ctor' and len(d.get('a') or []) == 1:
        d = strip(d['a'][0])
    return isstatic(d) and varkey(d) == u


def taint(f, parts=False):
    """Local variable -> parameters that may have gone into its value (with
    parts: which members of them, '*' for the whole)."""
    src = {}
    for n in f.nodes():
        k = n.get('k')
        if k == 'decl':
            for v in n['c']:
                if v.get('init') is not None:
                    src.setdefault(v.get('id'), []).append(v['init'])
        elif k == 'bin' and n['op'] in ASSIGN:
            for x in walk_lv(n['c'][0]):
                if x.get('k') == 'var' and x['dk'] == 'local':
                    src.setdefault(x['id'], []).append(n['c'][1])
        elif k in ('call', 'ctor'):
            args = list(n.get('a') or [])
            vs = ([n['obj']] if n.get('obj') is not None and not n.get('mc') else []) + args
            for t in vs:
                for x in walk_lv(t):
                    if x.get('k') == 'var' and x['dk'] == 'local':
                        src.setdefault(x['id'], []).extend(a for a in args if a is not t)
    out = {}

    def go(v, busy):
        if v in out:
            return out[v]
        r = set()
        for e in src.get(v, []):
            r |= of(e, busy | {v})
        if not busy:
            out[v] = r
        return r

    def of(e, busy=frozenset()):
        r = set()
        inner = set()
        for x in walk(e):
            if parts and x.get('k') == 'field' and x.get('b') is not None:
                b = strip(x['b'])
                if b.get('k') == 'var' and b['dk'] == 'param':
                    r.add((b['id'], x['n']))
                    inner.add(id(b))
            if x.get('k') == 'var' and x['dk'] == 'param':
                if id(x) not in inner:
                    r.add((x['id'], '*') if parts else x['id'])
            elif x.get('k') == 'var' and x['dk'] == 'local' and x['id'] not in busy:
                r |= go(x['id'], busy)
        return r
    return of


class Asked(Flow):
    """Parameters compared for (in)equality on every path to a return."""

    def __init__(self, prog, f, hit):
        super().__init__(prog)
        self.f, self.of, self.hit, self.asked = f, taint(f), hit, None
        self.cl = const_locals(prog, f)

    def compared(self, e, depth=4):
        r = set()
        for x in walk(e):
            op = x.get('op') if x.get('k') in ('bin', 'call') else None
            if op in ('==', '!='):
                r |= self.of(x)
            elif x.get('k') == 'call' and not op and any(t.body is not None for t in self.prog.targets(x)):
                # a helper that decides
                for t in self.prog.targets(x):
                    for y in t.nodes():
                        if y.get('k') in ('bin', 'call') and y.get('op') in ('==', '!='):
                            for i, p in enumerate(t.params):
                                if i < len(x.get('a') or []) and any(z.get('k') == 'var' and z.get('id') == p.get('id') for z in walk(y)):
                                    r |= self.of(x['a'][i])
            elif x.get('k') == 'var' and x['dk'] == 'local' and depth and x['id'] in self.cl:
                r |= self.compared(self.cl[x['id']]['init'], depth - 1)
        return r

    def condev(self, n, S):
        if n is not None and S and not (n.get('k') == 'bin' and n['op'] in ('&&', '||')) and not (n.get('k') == 'un' and n['op'] == '!'):
            p = frozenset(self.compared(n))
            S = {s | p for s in S}
        return super().condev(n, S)

    def on_return(self, n, st):
        if any(n is h for h in self.hit):
            self.asked = st if self.asked is None else self.asked & st
        return (st,)


def memo_maps(prog, f, ck):
    """X.find(key) ... return found ... X[key] = result: key covers the arguments."""
    if not f.params or f.body is None:
        return
    finds, stores = {}, {}
    for n in f.nodes():
        if n.get('k') != 'call' or n.get('obj') is None or 'map' not in (n.get('rec') or ''):
            continue
        o = strip(n['obj'])
        if o.get('k') != 'field' or strip(o['b']).get('k') != 'this':
            if not isstatic(o):
                continue
        name = o.get('n')
        if n.get('n') in ('find', 'count') and n.get('a'):
            finds.setdefault(name, []).append(n)
        if n.get('op') == '[]' or n.get('n') in ('insert', 'emplace'):
            stores.setdefault(name, []).append(n)
    for name in set(finds) & set(stores):
        rets = [n for n in f.nodes() if n.get('k') == 'ret' and n.get('e')]
        if not rets:
            continue
        # is the stored value the function's result?
        if not any(any(x is s for r in rets for x in walk(r['e'])) for s in stores[name]):
            continue
        params = taint(f, True)
        used = params(f.body)
        for n in finds[name] + stores[name]:
            key = params(n['a'][0])
            miss = None
            for p in f.params:
                u = {m for i, m in used if i == p.get('id')}
                h = {m for i, m in key if i == p.get('id')}
                if '*' in h or not u:
                    continue
                if not h or u - {'*'} - h or '*' in u and len(h) < 2:
                    miss = p.get('n') or 'an argument'
            ck.obligation('remembered', f.at(), not miss, key='%s|%s' % (f.sig().split('(')[0], name),
                          msg='%s: results are remembered in %s without regard to %s' % (f.n, name, miss))


def derived(prog, fns, ck):
    """Members filled on demand from others are refilled when those change."""
    for r in prog.recs.values():
        mu = [x['n'] for x in r.fields if x.get('mut')]
        if not mu or not (rel(r.d.get('file') or '') if isinstance(r.d.get('file'), str) else 'ringing').startswith(('ringing', 'apps')):
            continue
        ms = [f for f in prog.real_fns() if f.cls == r.q]
        fillers = []
        for f in ms:
            if f.params or f.d.get('ctor') or f.n.startswith(('~', 'operator')):
                continue
            w = set()
            for n in f.nodes():
                if n.get('k') == 'call' and n.get('obj') is not None and not n.get('mc') or n.get('k') == 'bin' and n['op'] in ASSIGN:
                    root = lvroot(n['obj'] if n.get('k') == 'call' else n['c'][0])
                    if root and root[0] == 'f' and n.get('n') not in ('begin', 'end', 'find'):
                        w.add(root[1])
            reads = {x['n'] for x in f.nodes() if x.get('k') == 'field' and strip(x['b']).get('k') == 'this'} - w
            # members reached through own const accessors
            for x in f.nodes():
                if x.get('k') == 'call':
                    for t in prog.targets(x):
                        if t.cls == r.q:
                            reads |= {y['n'] for y in t.nodes() if y.get('k') == 'field' and strip(y['b']).get('k') == 'this'}
            if w and w <= set(mu) and reads - w:
                fillers.append((f, w, reads - w))
        for fil, w, src in fillers:
            for f in prog.real_fns():
                if f is fil or f.d.get('impl') or f.body is None:
                    continue
                if f.n in ('swap', 'operator='):
                    continue
                Derived(prog, f, r.q, fil, w, src).decide(ck)


class Derived(Flow):
    """State: set of objects whose source changed and whose derived data has
    not been recalculated."""

    def __init__(self, prog, fn, cls, fil, w, src):
        super().__init__(prog)
        self.fn, self.cls, self.fil, self.w, self.src = fn, cls, fil, w, src
        self.hit = False

    def fresh(self, o, st):
        """An object whose derived data is still empty is given it on demand."""
        return ('virgin', o) in st

    def declare(self, v, st):
        i = strip(v['init']) if v.get('init') is not None else None
        if (v.get('ty') or {}).get('cls') == self.cls and (i is None or i.get('k') == 'ctor' and not i.get('a')):
            return (st | {('virgin', ('local', v.get('id')))},)
        return (st,)

    def owner(self, n):
        """object a member expression belongs to: 'this' or a variable."""
        n = strip(n)
        while n is not None:
            if n.get('k') == 'field' and n.get('rec') == self.cls:
                b = strip(n['b'])
                if b.get('k') == 'this':
                    return n['n'], 'this'
                if b.get('k') == 'var':
                    return n['n'], (b['dk'], b.get('id'))
                return n['n'], '?'
            if n.get('k') == 'field':
                n = strip(n['b'])
            elif n.get('k') == 'idx':
                n = strip(n['c'][0])
            elif n.get('k') == 'call' and n.get('obj') is not None:
                n = strip(n['obj'])
            else:
                return None
        return None

    def leaf(self, n, st):
        k = n.get('k')
        tg = []
        if k == 'bin' and n['op'] in ASSIGN:
            tg = [n['c'][0]]
        elif k == 'call' and n.get('obj') is not None and not n.get('mc') and n.get('n') not in ('begin', 'end', 'reserve', 'find', 'size'):
            tg = [n['obj']]
            b = strip(n['obj'])
            if n.get('op') == '=' and b.get('k') == 'var' and (b.get('ty') or {}).get('cls') == self.cls:
                o = (b['dk'], b.get('id'))
                return (st - {o, ('virgin', o), ('late', o)},)
        if k == 'call' and n.get('n') in ('back_inserter', 'swap', 'sort') and n.get('a'):
            tg = tg + list(n['a'])
        for t in tg:
            o = self.owner(t)
            if o and o[0] in self.src and o[1] != '?':
                self.hit = True
                st = st | {('late', o[1]) if self.fresh(o[1], st) else o[1]}
            if o and o[0] in self.w:
                st = st - {o[1], ('late', o[1]), ('virgin', o[1])}
        if k == 'call' and n.get('fn') == self.fil.usr:
            b = strip(n['obj']) if n.get('obj') is not None else {'k': 'this'}
            o = 'this' if b.get('k') == 'this' else (b.get('dk'), b.get('id')) if b.get('k') == 'var' else None
            st = st - {o, ('late', o), ('virgin', o)}
        return (st,)

    def init(self, fn, i, S):
        S = self.ev(i.get('e'), S) if i.get('e') else S
        return S

    def decide(self, ck):
        if not any(x.get('k') == 'field' and x.get('rec') == self.cls and x['n'] in self.src for x in self.fn.nodes()):
            return
        try:
            X = self.run(self.fn, {frozenset({('virgin', 'this')} if self.fn.d.get('ctor') else ())})
        except Unsupported:
            ck.obligation('derived', self.fn.at(), None, msg=self.fn.n)
            return
        if not self.hit:
            return
        # lists of readers that refill when empty make emptiness harmless
        late = [s for s in X.ret if any(x[0] == 'late' for x in s)]
        bad = [s for s in X.ret if any(x == 'this' or x[0] not in ('late', 'virgin') for x in s)]
        ck.count('functions that change source data')
        ck.obligation('derived', self.fn.at(), False if bad else None if late else True, key='%s|%s' % (self.cls, self.fn.sig().split('(')[0]),
                      msg='%s: changes %s but may return without recalculating %s' % (self.fn.n, '/'.join(sorted(self.src)), '/'.join(sorted(self.w))))

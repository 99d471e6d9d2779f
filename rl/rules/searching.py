"""Recursive searches: what a step records it takes back, output is guarded,
and nothing is output once the consumer has asked to stop."""
import re
from ..flow import Flow, Unsupported
from ..ir import walk, children, load, apps, belongs
from ..expr import Canon, strip, lvroot, writes, const_locals, only_return, written_fields, ASSIGN
from ..report import Check

GROW = {'push_back': 1, 'push_front': 1, 'pop_back': -1, 'pop_front': -1, 'emplace_back': 1}
KEYED = {'insert': 1, 'erase': -1}
CAP = 3


def self_recursive(prog, cls):
    """usrs of the member functions of cls that can reach themselves."""
    ms = [f for f in prog.real_fns() if f.cls == cls]
    calls = {}
    for f in ms:
        calls[f.usr] = {t.usr for n in f.nodes() if n.get('k') == 'call' for t in prog.targets(n) if t.cls == cls}
    out = set()
    for f in ms:
        seen, st = set(), list(calls[f.usr])
        while st:
            u = st.pop()
            if u in seen:
                continue
            seen.add(u); st += calls.get(u, ())
        if f.usr in seen:
            out.add(f.usr)
    return out


def read_fields(prog, n, cls, depth=3):
    out = set()
    for x in walk(n):
        if x.get('k') == 'field' and strip(x['b']).get('k') == 'this':
            out.add(x['n'])
        if x.get('k') == 'call' and depth:
            for t in prog.targets(x):
                if t.cls == cls and t.body is not None:
                    out |= read_fields(prog, t.body, cls, depth - 1)
    return out


class Step(Flow):
    """State: (counts, facts, halt) where halt is 'ok', 'stop' or the text of
    the flag that tells whether the consumer wants more."""
    MAX_STATES = 20000

    def __init__(self, prog, fn, rec, sub=None, level=0, top=None):
        super().__init__(prog)
        self.fn = fn; self.rec = rec
        self.canon = Canon(prog, fn, sub)
        self.level = level
        self.top = top or self
        if top is None:
            self.events = []          # (kind, node, fn, state)
            self.flags = set()
            self.ctx = True
            self.pushed = set()

    # -- state helpers --
    def bump(self, st, key, d):
        c = dict(st[0])
        v = max(-CAP, min(CAP, c.get(key, 0) + d))
        if v:
            c[key] = v
        else:
            c.pop(key, None)
        return (frozenset(c.items()), st[1], st[2])

    def learn(self, st, t, v):
        # only what the rule asks about, and choices between plain locals
        if not self.top.ctx or not (t in ('ROUNDS', 'ANYBLOCK') or t.startswith('FREE ') or 'lenrange' in t or
                re.match(r'^[!()<=]*[pl]\d+[<=]*[pl0-9]*\)*$', t)):
            return st
        f = dict(st[1])
        if t in f:
            return st if f[t] == v else None
        f[t] = v
        return (st[0], frozenset(f.items()), st[2])

    def forget(self, st, names):
        if not names:
            return st
        pat = [re.compile(r'(?<![A-Za-z0-9_])%s(?![A-Za-z0-9_])' % re.escape(x)) for x in names]
        fs = frozenset((t, v) for t, v in st[1] if not any(p.search(t) for p in pat))
        return (st[0], fs, st[2])

    # -- conditions: look through named predicates and const bools --
    def condev(self, n, S):
        m = strip(n)
        if m is not None and S:
            if m.get('k') == 'var' and m['dk'] == 'local' and m['id'] in self.canon.consts:
                i = self.canon.consts[m['id']]['init']
                if self.canon.simple(i) and strip(i).get('k') in ('bin', 'un', 'call', 'field', 'index'):
                    return self.condev(i, S)
            if m.get('k') == 'call' and not m.get('virt') and m.get('fn') and self.level < 4:
                t = self.prog.fn(m['fn'])
                if t is not None and t.body is not None and t.cls == self.fn.cls and t.usr not in self.rec:
                    e = only_return(t)
                    if e is not None and strip(e).get('k') in ('bin', 'un', 'call', 'field'):
                        sub = self.child(t, m)
                        sub.x = self.x
                        return sub.condev(e, S)
        return super().condev(n, S)

    def child(self, t, call):
        sub = {}
        args = call.get('a') or []
        for i in range(min(len(args), len(t.params))):
            sub[('param', i)] = self.canon.text(args[i])
        for i in const_locals(self.prog, t):
            pass
        s = Step(self.prog, t, self.rec, sub, self.level + 1, self.top)
        return s

    def assume(self, n, truth, st):
        n = strip(n)
        if n.get('k') == 'call' and n.get('n') == 'isrounds':
            st = self.learn(st, 'ROUNDS', truth)
        for x in walk(n):
            if x.get('k') == 'enum' and x.get('n') == 'non_round_blocks' and st is not None:
                st = self.learn(st, 'ANYBLOCK', truth)
        if st is None:
            return ()
        if n.get('k') == 'call' and self.is_output(n):
            return ((st[0], st[1], 'stop' if truth else 'ok'),)
        t, p = self.canon.atom(n)
        v = truth == p
        if st[2] not in ('ok', 'stop') and (t == st[2] or st[2].startswith('?') and t in self.top.flags):
            st = (st[0], st[1], 'stop' if v else 'ok')
        if not v:
            for m in read_fields(self.prog, n, self.fn.cls):
                st = self.learn(st, 'FREE ' + m, True) or st
        # a container back at the size it had when the step began
        m = re.match(r'^\((.*)<(this\.\w+)\.(?:size|length)\(\)\)$', t)
        if m and not v and (m.group(1), 'ENTRY ' + m.group(2)) in [(a[6:], b) for a, b in st[1] if str(a).startswith('ENTRY:')]:
            c = dict(st[0]); c.pop(m.group(2), None)
            st = (frozenset(c.items()), st[1], st[2])
        m = re.match(r'^\((.*)==(.*)\)$', t)
        if m and v:
            for a, b in ((m.group(1), m.group(2)), (m.group(2), m.group(1))):
                q = re.match(r'^(this\.\w+)\.(?:size|length)\(\)$', a)
                if q and not dict(st[0]).get(q.group(1)):
                    st = (st[0], st[1] | {('ENTRY:' + b, 'ENTRY ' + q.group(1))}, st[2])
        st = self.learn(st, t, v)
        return (st,) if st is not None else ()

    def declare(self, v, st):
        i = v.get('init')
        if i is not None:
            t = Canon(self.prog, self.fn, self.canon.sub).text(i)
            q = re.match(r'^(this\.\w+)\.(?:size|length)\(\)$', t)
            if q and v['id'] in self.canon.consts and not dict(st[0]).get(q.group(1)):
                st = (st[0], st[1] | {('ENTRY:l%s' % v['id'], 'ENTRY ' + q.group(1)), ('ENTRY:' + t, 'ENTRY ' + q.group(1))}, st[2])
        return (st,)

    def is_output(self, n):
        return n.get('k') == 'call' and n.get('op') == '()' and n.get('obj') is not None and \
            (strip(n['obj']).get('ty') or {}).get('cls', '').endswith('outputer')

    def ev(self, n, S):
        # calls of the step's own helpers are followed
        if n is not None and n.get('k') == 'call' and S and n.get('fn') and not n.get('virt') and self.level < 4:
            t = self.prog.fn(n['fn'])
            if t is not None and t.body is not None and t.cls == self.fn.cls and t.usr not in self.rec and not t.get('static') \
                    and (n.get('obj') is None or strip(n['obj']).get('k') == 'this'):
                for a in n.get('a') or []:
                    S = super().ev(a, S)
                c = self.child(t, n)
                X = c.run(t, S)
                out = X.ret
                self.x.thr |= X.thr
                rt = (t.get('ret') or {}).get('s')
                keep = set()
                for s in out:
                    keep.add(self.forget(s, ()))
                return keep
        return super().ev(n, S)

    def leaf(self, n, st):
        k = n.get('k')
        if k == 'call':
            if self.is_output(n):
                self.top.events.append(('output', n, self.fn, st))
                st = (st[0], st[1], '!lost')
            elif n.get('fn') in self.rec:
                self.top.events.append(('recurse', n, self.fn, st))
                st = (st[0], st[1], '?' + n['fn'] if self.top.ctx else 'ok')
                names = set()
                for u in [n['fn']]:
                    names |= written_fields(self.prog).get(u, set())
                st = self.forget(st, names)
                return (st,)
            o = strip(n['obj']) if n.get('obj') is not None else None
            if o is not None and o.get('k') == 'field' and strip(o['b']).get('k') == 'this' and not (o.get('ty') or {}).get('ptr'):
                key = self.canon.text(o)
                nm = n.get('n')
                if nm in GROW:
                    if GROW[nm] > 0:
                        self.top.pushed.add(key)
                    st = self.bump(st, key, GROW[nm])
                elif nm in KEYED and len(n.get('a') or []) == 1:
                    kk = '%s{%s}' % (key, self.canon.text(n['a'][0]))
                    if KEYED[nm] > 0:
                        self.top.events.append(('mark', n, self.fn, st, o['n']))
                    st = self.bump(st, kk, KEYED[nm])
        if k == 'bin' and n['op'] == '=':
            l, r = strip(n['c'][0]), strip(n['c'][1])
            if self.is_output(r):
                t = self.canon.text(l)
                self.top.flags.add(t)
                st = self.forget(st, [t.split('.')[-1]])
                return ((st[0], st[1], t),)
            base = None
            if l.get('k') == 'idx':
                base, ix = strip(l['c'][0]), l['c'][1]
            elif l.get('k') == 'call' and l.get('op') == '[]' and l.get('obj') is not None:
                base, ix = strip(l['obj']), l['a'][0]
            if base is not None and base.get('k') == 'field' and strip(base['b']).get('k') == 'this' and r.get('k') in ('bool', 'int', 'chr'):
                kk = '%s{%s}' % (self.canon.text(base), self.canon.text(ix))
                if int(r['v']):
                    self.top.events.append(('mark', n, self.fn, st, base['n']))
                st = self.bump(st, kk, 1 if int(r['v']) else -1)
                return (st,)
        ws = writes(self.prog, n)
        names = [w[1] if w[0] == 'f' else '%s%s' % (w[1][0], w[2]) for w in ws]
        if k == 'call' and n.get('fn'):
            t = self.prog.fn(n['fn'])
            if t is not None and t.cls == self.fn.cls:
                names += written_fields(self.prog).get(t.usr, set())
        return (self.forget(st, names),)

    def noreturn(self, n, st):
        return


def offset(t):
    """base text and integer offset of a canonical sum."""
    m = re.match(r'^\((.*)([+-])(\d+)\)$', t)
    if m:
        return m.group(1), int(m.group(2) + m.group(3))
    m = re.match(r'^\((\d+)\+(.*)\)$', t)
    if m:
        return m.group(2), int(m.group(1))
    return t, 0


def bound(t, v, limit, lengths):
    """Does knowing that comparison t is v establish length >= limit (for the
    minimum), or length < limit (for the maximum)?  None: not understood."""
    low = limit.endswith('first')
    m = re.match(r'^\((.*)(<=|<|==)(.*)\)$', t)
    if not m:
        return None
    (a, x), (b, y) = offset(m.group(1)), offset(m.group(3))
    op = m.group(2)
    if op == '==':
        return False
    if b == limit:
        # a + d OP limit
        d = x - y
        if a not in lengths:
            return None
        if op == '<=':
            d -= 1                               # a + d - 1 < limit
        if not v:
            return d <= 0 if low else False      # a + d >= limit
        return False if low else d >= 0
    if a == limit:
        d = y - x
        if b not in lengths:
            return None
        if op == '<=':
            d += 1                               # limit < b + d + 1
        if v:
            return d <= 1 if low else False      # b + d >= limit + 1
        return False if low else d >= 1          # b + d <= limit
    return None


def lengths(prog, f, rec, canon):
    """Canonical texts that stand for the length so far: integer parameters
    the recursion passes on increased by one, and sizes of member containers."""
    out = set()
    for n in f.nodes():
        if n.get('k') == 'call' and n.get('fn') in rec:
            for i, a in enumerate(n.get('a') or []):
                T = canon.text(a)
                if offset(T) == ('p%d' % i, 1) or T.startswith('(p%d+' % i) or T.endswith('+p%d)' % i):
                    out.add('p%d' % i)
    for x in f.nodes():
        if x.get('k') == 'call' and x.get('n') in ('size', 'length') and x.get('obj') is not None:
            out.add(canon.text(x))
    return out


def contexts(prog):
    for r in prog.derived('ringing::search_base::context_base'):
        yield r


def check(prop):
    C = Check(prop, 'For every recursive search step (member functions of search contexts that reach themselves, their helpers '
              'inlined), path-set dataflow over (net growth of each member container per key, facts known from conditions, whether '
              'the consumer asked to stop): every return leaves each container as it was; touches are output only on paths that '
              'know the length to be at least the minimum and the row to be rounds (or any block wanted); leads are marked used '
              'only on paths that know them unused; recursion happens only below the maximum length; and no output or further '
              'recursion follows an output without the stop flag having been found clear.',
              ['exceptions thrown through a search step are not considered', 'recursive calls are assumed to obey the same rule'])
    seen = set()
    for g in ['lib'] + apps():
        prog = load(g)
        todo = [(r.q, True) for r in contexts(prog)]
        for f in prog.real_fns():
            if f.cls and f.cls.endswith('searcher') and (f.cls, False) not in todo:
                todo.append((f.cls, False))
        for cls, ctx in todo:
            rec = self_recursive(prog, cls)
            for u in sorted(rec):
                f = prog.fns[u]
                if f.at() in seen or not belongs(f.file, g):
                    continue
                seen.add(f.at())
                if not ctx and g != 'methsearch':
                    continue
                one(C, prog, f, rec, ctx)
    C.floor('a step takes back what it recorded', 5)
    C.floor('output only of complete touches of allowed length', 3)
    C.floor('nothing is output after a request to stop', 6)
    return C.finish()


def one(C, prog, f, rec, ctx):
    C.count('search steps')
    where = '%s %s' % (f.at(), f.sig())
    try:
        s = Step(prog, f, rec)
        s.ctx = ctx
        s.lengths = lengths(prog, f, rec, s.canon)
        X = s.run(f, {(frozenset(), frozenset(), 'ok')})
    except Unsupported as e:
        C.obligation('a step takes back what it recorded', where, None, msg=str(e))
        return
    pushed = s.pushed
    left = sorted({'%s (%+d)' % (k, v) for st in X.ret for k, v in st[0] if ctx or k in pushed})
    C.obligation('a step takes back what it recorded', where, not left, f.q,
                 '%s can return with %s changed' % (f.sig(), ', '.join(left)))
    if not ctx:
        return
    verdict = {}

    def say(clause, at, ok, key, msg):
        old = verdict.get((clause, at))
        rank = {False: 0, None: 1, True: 2}
        if old is None or rank[ok] < rank[old[0]]:
            verdict[(clause, at)] = (ok, key, msg)
    for e in s.events:
        kind, n, fn, st = e[:4]
        facts = dict(st[1])
        at = '%s %s' % (fn.at(n), fn.sig())
        if kind in ('output', 'recurse'):
            say('nothing is output after a request to stop', at, st[2] == 'ok', '%s|%s' % (f.q, kind),
                         '%s can %s after the consumer asked to stop (flag %s not known to be clear)'
                         % (f.sig(), 'output' if kind == 'output' else 'go on searching', st[2].lstrip('?!').split('@')[-1]))
        if kind == 'output':
            low = {(t, v) for t, v in facts.items() if 'lenrange.first' in str(t)}
            got = [bound(t, v, 'this.lenrange.first', s.lengths) for t, v in low]
            ok = True if True in got else None if None in got else False
            say('output only of complete touches of allowed length', at, ok, '%s|length' % f.q,
                         'a touch can be output without its length having been found to be at least the minimum (known: %s)' % sorted(low))
            rd = facts.get('ROUNDS') is True or facts.get('ANYBLOCK') is True
            say('output only of complete touches of allowed length', at, rd, '%s|rounds' % f.q,
                         'a touch can be output that has not come round')
        if kind == 'recurse':
            up = {(t, v) for t, v in facts.items() if 'lenrange.second' in str(t)}
            got = [bound(t, v, 'this.lenrange.second', s.lengths) for t, v in up]
            # a step that adds more than one must have compared the sum itself
            for i, a in enumerate(n.get('a') or []):
                T = s.canon.text(a) if fn is f else None
                if 'p%d' % i in s.lengths and T != '(1+p%d)' % i and T != '(p%d+1)' % i:
                    got = [t == '(this.lenrange.second<%s)' % T and not v or t == '(%s<=this.lenrange.second)' % T and v or
                           t == '(%s<this.lenrange.second)' % T and v or (None if T is None else False) for t, v in up]
            ok = True if True in got else None if None in got else False
            say('recursion only below the maximum length', at, ok, '%s|max' % f.q,
                         'the search can go deeper than the maximum length allows')
        if kind == 'mark':
            say('leads are used only if unused', at, ('FREE ' + e[4]) in facts, '%s|%s' % (f.q, e[4]),
                         'a lead is marked as used on a path that never found it unused')
    for (clause, at), (ok, key, msg) in verdict.items():
        C.obligation(clause, at, ok, key, msg)

"""A prover's bookkeeping: one inductive step of each operation, interpreted over
the number of times the row occurs (in the prover itself and in those it
branches from), the number permitted, and whether failures are recorded."""
from itertools import product
from ..flow import Flow, Unsupported
from ..ir import walk, load, everywhere
from ..expr import strip
from ..machine import Machine, Unknown, Thrown, Bad, Obj, Seq, Ptr, Atom, Cell, It
from ..report import Check

CLS = 'ringing::prover'
R, S, T = Atom('r', 1), Atom('s', 0), Atom('t', 2)


class Roles:
    """Which member is which, told by the public observers."""

    def __init__(self, prog):
        rec = prog.rec_q.get(CLS)
        self.ok = False
        if rec is None:
            return
        self.map = self.chain = self.fi = None
        ints = []
        for f in rec.fields:
            c = f['ty'].get('cls') or ''
            s = f['ty'].get('s') or ''
            if c.startswith('std::multimap'):
                self.map = f['n']
            elif c.startswith('ringing::shared_pointer'):
                self.chain = f['n']
            elif 'list' in s and '*' in s:
                self.fi = f['n']
            else:
                ints.append(f['n'])
        ms = {f.n: f for f in prog.real_fns() if f.cls == CLS}
        self.ms = ms

        def named(fn):
            out = {x['n'] for x in walk(fn.body) if x.get('k') == 'field' and x['n'] in ints} if fn else set()
            return out.pop() if len(out) == 1 else None
        self.falsec, self.dups = named(ms.get('truth')), named(ms.get('duplicates'))
        self.max = named(ms.get('disable_proving'))
        rest = [i for i in ints if i not in (self.falsec, self.dups, self.max)]
        self.line = rest[0] if len(rest) == 1 else None
        self.ok = all((self.map, self.chain, self.fi, self.falsec, self.dups, self.max, self.line))


def detail(row, lines):
    return Obj('ringing::linedetail', _row=row, _lines=Seq('seq', lines))


def pair(r, l):
    return Obj('pair', first=r, second=l)


def entry_parts(rec):
    row = [f['n'] for f in rec.fields if (f['ty'].get('cls') or '') == 'ringing::row']
    lst = [f['n'] for f in rec.fields if 'list' in (f['ty'].get('cls') or '') or 'vector' in (f['ty'].get('cls') or '')]
    return (row[0], lst[0]) if len(row) == 1 and len(lst) == 1 else None


class State:
    """C occurrences in the provers branched from, H in this one, M permitted."""

    def __init__(self, ro, parts, C, H, M, FI, other):
        self.ro = ro; self.C, self.H, self.M = C, H, M
        self.parts = parts
        L = 40
        over = max(0, C + H - M) if M != -1 else 0
        self.pre = {'line': L, 'falsec': over + (3 if other else 0), 'dups': max(0, C + H - 1) + 5, 'max': M}
        fi = None
        if FI:
            fi = Seq('seq')
            if other and M != -1:
                fi = Seq('seq', [self.mk(S, [1, 2, 3])])
            if over:
                fi = Seq('seq', fi.values() + [self.mk(R, self.lines(C, H))] + ([self.mk(T, [4, 5])] if other else []))
        self.fi = fi
        # the provers branched from: none, one, or one that is itself a branch
        self.chain = self.far = None
        near = C if not other else C // 2
        if other:
            self.far = self.prover([pair(R, 10 + i) for i in range(C - near)] + [pair(T, 3)], None)
        if C or other:
            self.chain = self.prover([pair(S, 1)] + [pair(R, 10 + i) for i in range(C - near, C)] + [pair(T, 4)], self.far)
        self.wantchain = self.rows('chain') + self.rows('far')
        self.head = Obj(CLS)
        h = self.head.f
        h[ro.map] = Cell(Seq('multimap', [pair(S, 2)] + [pair(R, 20 + i) for i in range(H)] + [pair(T, 5)]))
        h[ro.chain] = Cell(Ptr(self.chain) if self.chain is not None else None)
        h[ro.fi] = Cell(Ptr(fi) if fi is not None else None)
        for k in ('line', 'falsec', 'dups', 'max'):
            h[getattr(ro, k)] = Cell(self.pre[k])

    def prover(self, items, chain):
        ro = self.ro
        o = Obj(CLS)
        o.f[ro.map] = Cell(Seq('multimap', items))
        o.f[ro.chain] = Cell(Ptr(chain) if chain is not None else None)
        o.f[ro.fi] = Cell(None)
        for k in ('line', 'falsec', 'dups', 'max'):
            o.f[getattr(ro, k)] = Cell(self.M if k == 'max' else 0)
        return o

    @staticmethod
    def lines(C, H):
        return [10 + i for i in range(C)] + [20 + i for i in range(H)]

    def mk(self, row, lines):
        return Obj('ringing::linedetail', **{self.parts[0]: row, self.parts[1]: Seq('seq', lines)})

    def get(self, k):
        return self.head.f[getattr(self.ro, k)].v

    def rows(self, which='head'):
        o = {'head': getattr(self, 'head', None), 'chain': self.chain, 'far': self.far}[which]
        return [(n.f['first'].v, n.f['second'].v) for n in o.f[self.ro.map].v.values()] if o is not None else []

    def entries(self):
        return [(o.f[self.parts[0]].v, o.f[self.parts[1]].v.values()) for o in self.fi.values()] if self.fi is not None else []

    def text(self):
        return 'row already there %d time(s)%s, %s permitted%s' % (
            self.C + self.H, ' (%d in the prover branched from)' % self.C if self.C else '',
            'any number' if self.M == -1 else self.M, ', failures recorded' if self.fi is not None else '')


def expect(st, d, ret=None):
    """Differences from the state in which the row occurs d times more."""
    C, H, M = st.C, st.H + d, st.M
    n = st.C + max(st.H, H)            # the occurrence that came or went
    out = []
    want = [(S, 2)] + [(R, 20 + i) for i in range(min(st.H, H))] + ([(R, 41)] if d > 0 else []) + [(T, 5)]
    got = st.rows()
    if got != want:
        a, b = [l for r, l in got if r is R], [l for r, l in want if r is R]
        out.append(('rows', 'the rows held are wrong (lines of the row: %s, not %s)' % (a, b)))
    if st.rows('chain') + st.rows('far') != st.wantchain:
        out.append(('branch', 'the prover branched from is changed'))
    if st.get('line') != 40 + d:
        out.append(('line-number', 'the line number changes by %s' % (st.get('line') - 40 if isinstance(st.get('line'), int) else '?')))
    if st.get('dups') != st.pre['dups'] + (d if n > 1 else 0):
        out.append(('duplicates', 'the number of duplicates changes by %s, not %d' % (st.get('dups') - st.pre['dups'], d if n > 1 else 0)))
    f = st.pre['falsec'] + (d if M != -1 and n > M else 0)
    if (st.get('falsec') == 0) != (f == 0):
        out.append(('verdict', 'the touch is reported %s' % ('true' if st.get('falsec') == 0 else 'false')))
    elif st.get('falsec') != f:
        out.append(('verdict', 'the count of false rows changes by %s, not %d' % (st.get('falsec') - st.pre['falsec'], f - st.pre['falsec'])))
    if st.get('max') != M:
        out.append(('permitted', 'the number of times a row is permitted changes'))
    if d > 0 and not out and ret != (f == 0):
        out.append(('answer', 'the answer is %s' % ret))
    if st.fi is not None:
        got = {r: l for r, l in st.entries()}
        if len(got) != len(st.entries()):
            out.append(('failures', 'a row is listed twice'))
        wr = None
        if M != -1 and C + H > M:
            wr = [10 + i for i in range(C)] + [20 + i for i in range(min(st.H, H))] + ([41] if d > 0 else [])
        if got.get(R) != wr:
            out.append(('failures', 'the lines listed for the row are %s, not %s' % (got.get(R), wr)))
        for r, l in ((S, [1, 2, 3]), (T, [4, 5])):
            if r in got and got[r] != l:
                out.append(('failures', 'the lines listed for another row change'))
        st.others_before = getattr(st, 'others_before', None)
        if st.others_before is not None and {r for r in got if r is not R} != st.others_before:
            out.append(('failures', 'another row\'s failure is lost or added'))
    return out


def scenarios():
    for C, H, M, FI, other in product((0, 1, 2), (0, 1, 2, 3), (-1, 0, 1, 2), (0, 1), (0, 1)):
        if C + H <= 4:
            yield C, H, M, FI, other


def step(prog, ro, parts, name, d, ck, fn):
    bad, done, unk = {}, 0, None
    for C, H, M, FI, other in scenarios():
        st = State(ro, parts, C, H, M, FI, other)
        st.others_before = {r for r, l in st.entries() if r is not R}
        m = Machine(prog)
        legal = d > 0 or H > 0
        try:
            ret = m.rv(m.run(fn, st.head, {0: Cell(R)}))
            diffs = expect(st, d, ret) if legal else [('refuse', 'a row that is not in it is taken back without complaint')]
        except Thrown:
            diffs = [('refuse', 'it throws')] if legal else expect(st, 0) if False else []
            if not legal and (st.get('line') != 40 or st.get('falsec') != st.pre['falsec'] or st.get('dups') != st.pre['dups']):
                diffs = [('refuse', 'it throws with its counts changed')]
        except Bad as e:
            diffs = [('fault', e.what)]
        except Unknown as e:
            unk = str(e)
            continue
        done += 1
        ck.count('abstract states')
        for k, msg in diffs:
            bad.setdefault(k, msg + ' (' + st.text() + ')')
    for k in ('rows', 'branch', 'line-number', 'duplicates', 'verdict', 'permitted', 'answer', 'failures', 'refuse', 'fault'):
        if k in bad:
            ck.obligation('step-' + k, fn.at(), False, key='%s|%s' % (fn.sig().split('(')[0], k), msg='%s: %s' % (fn.n, bad[k]))
        elif unk:
            ck.obligation('step-' + k, fn.at(), None, msg='%s: %s' % (fn.n, unk))
        else:
            ck.obligation('step-' + k, fn.at(), True)


def observers(prog, ro, parts, ck):
    for name in ('count_row', 'size', 'truth', 'duplicates'):
        fn = ro.ms.get(name)
        if fn is None:
            continue
        bad = unk = None
        for C, H, M, FI, other in scenarios():
            st = State(ro, parts, C, H, M, FI, other)
            m = Machine(prog)
            try:
                v = m.rv(m.run(fn, st.head, {0: Cell(R)} if name == 'count_row' else {}))
            except Unknown as e:
                unk = str(e)
                continue
            except (Bad, Thrown) as e:
                bad = 'it fails'
                continue
            want = {'count_row': C + H, 'size': H + 2 + len(st.wantchain), 'truth': st.pre['falsec'] == 0, 'duplicates': st.pre['dups']}[name]
            ck.count('abstract states')
            if v != want:
                bad = 'the answer is %s, not %s (%s)' % (v, want, st.text())
        ck.obligation('observer', fn.at(), False if bad else None if unk else True, key=name, msg='%s: %s' % (name, bad or unk))
    # a branch sees everything its parent does
    fn = ro.ms.get('create_branch')
    if fn is not None:
        bad = unk = None
        for C, H, M, FI, other in scenarios():
            st = State(ro, parts, C, H, M, FI, other)
            m = Machine(prog)
            try:
                b = m.rv(m.run(fn, None, {0: Cell(Ptr(st.head))}))
                b = b.o if isinstance(b, Ptr) else None
                if not isinstance(b, Obj):
                    raise Unknown('result')
                ch = b.f[ro.chain].v
                if not isinstance(ch, Ptr) or ch.o is not st.head:
                    bad = 'the branch does not refer to the prover it is made from'
                elif b.f[ro.map].v.nodes:
                    bad = 'the rows are counted twice'
                else:
                    for k in ('line', 'falsec', 'dups', 'max'):
                        if b.f[getattr(ro, k)].v != st.pre[k]:
                            bad = 'the branch has its own %s' % {'line': 'line number', 'falsec': 'verdict', 'dups': 'number of duplicates', 'max': 'number of times a row is permitted'}[k]
                    x = b.f[ro.fi].v
                    if (x.o if isinstance(x, Ptr) else x) is not st.fi:
                        bad = 'the branch does not record failures where its parent does'
            except Unknown as e:
                unk = str(e)
            except (Bad, Thrown):
                bad = 'it fails'
            ck.count('abstract states')
        ck.obligation('branch', fn.at(), False if bad else None if unk else True, key='create_branch', msg='create_branch: %s' % (bad or unk))
    # a new prover is empty and true
    for f in prog.real_fns():
        if f.cls != CLS or f.n != 'prover' or f.d.get('impl'):
            continue
        m = Machine(prog)
        bad = unk = None
        fi = Seq('seq')
        ps, mx = {}, None
        for i, p in enumerate(f.params):
            if 'list' in (p['ty'].get('s') or '') or p['ty'].get('cls'):
                ps[i] = Cell(fi)
            else:
                ps[i] = Cell(7); mx = 7
        if mx is None or len(ps) > 2:
            continue
        try:
            o = Obj(CLS)
            for x in prog.rec_q[CLS].fields:
                o.f[x['n']] = Cell(m.default(x))
            m.env = {'this': o, 'params': ps, 'locals': {}}
            for i in f.inits:
                if i.get('field') and i.get('e'):
                    v = m.val(i['e'])
                    o.f[i['field']].v = v
            m.run(f, o, ps)
            if o.f[ro.max].v != 7:
                bad = 'it permits %s occurrences, not the number asked for' % o.f[ro.max].v
            elif (o.f[ro.line].v, o.f[ro.falsec].v, o.f[ro.dups].v) != (0, 0, 0):
                bad = 'a new prover has counts that are not zero'
            elif len(ps) == 2 and not (isinstance(o.f[ro.fi].v, Ptr) and o.f[ro.fi].v.o is fi):
                bad = 'failures are not recorded where the caller asked'
        except Unknown as e:
            unk = str(e)
        ck.obligation('start', f.at(), False if bad else None if unk else True, key=f.sig(), msg='prover: %s' % (bad or unk))


# ---- full and quick proofs --------------------------------------------------
class Loops(Flow):
    """Counts add_row calls and steps of each iterator in one iteration."""

    def __init__(self, prog, fn):
        super().__init__(prog)
        self.fn = fn


def bool_eval(n, atoms):
    """n under an assignment of its atoms; None if an atom is not known."""
    n = strip(n)
    k = n.get('k')
    if k == 'bin' and n['op'] in ('&&', '||'):
        a, b = bool_eval(n['c'][0], atoms), bool_eval(n['c'][1], atoms)
        if n['op'] == '&&':
            return False if a is False or b is False else None if a is None or b is None else True
        return True if a or b else None if a is None or b is None else False
    if k == 'un' and n['op'] == '!':
        a = bool_eval(n['c'][0], atoms)
        return None if a is None else not a
    if k == 'bool':
        return bool(n['v'])
    return atoms(n)


class Prove(Flow):
    """State: (phase of each range, quick?, verdict) - finite facts about one
    proof: how far the true and the unknown rows have been walked."""
    MAX_STATES = 5000

    def __init__(self, prog, fn, quick):
        super().__init__(prog)
        self.fn = fn; self.quick = quick
        self.ranges = {}
        self.problems = set()
        self.unk = None
        ps = fn.params
        its = [i for i, p in enumerate(ps) if not ((p['ty'].get('s') or '').replace('const ', '') in ('bool', 'int'))]
        # (first, last) pairs in the order of the parameters
        self.pairs = list(zip(its[0::2], its[1::2]))
        self.qp = [i for i, p in enumerate(ps) if (p['ty'].get('s') or '').replace('const ', '') == 'bool']

    # state: tuple per pair: 'todo' (current row not yet added) / 'added' (added, not stepped) ; exhausted flag; verdict
    def start(self):
        return frozenset(), None

    def is_add(self, n):
        return n.get('k') == 'call' and n.get('n') == 'add_row' and n.get('rec') == CLS

    def first_of(self, n):
        for x in walk(n):
            if x.get('k') == 'var' and x['dk'] == 'param':
                for a, b in self.pairs:
                    if x['id'] == a:
                        return a
        return None

    def leaf(self, n, st):
        facts, verdict = st
        if self.is_add(n):
            a = self.first_of(n['a'][0]) if n.get('a') else None
            if a is None:
                self.unk = 'row added from elsewhere'
                return (st,)
            if ('added', a) in facts:
                self.problems.add('a row is added twice')
            if ('left', a) not in facts:
                self.problems.add('a row past the end may be added')
            return ((facts | {('added', a)}, 'add'),)
        inc = None
        if n.get('k') == 'call' and n.get('op') == '++' or n.get('k') == 'un' and n['op'] in ('pre++', 'post++'):
            for x in walk(n):
                if x.get('k') == 'var' and x['dk'] == 'param' and any(x['id'] == a for a, b in self.pairs):
                    inc = x['id']
        if inc is not None:
            if ('added', inc) not in facts:
                # `add_row(*i++)` steps before it adds
                par = getattr(self, 'inadd', None)
                self.problems.add('a row is passed over')
            return ((frozenset(f for f in facts if f[1] != inc), verdict),)
        return (st,)

    def cmp_pair(self, n):
        n = strip(n)
        op = n.get('op')
        if op not in ('==', '!='):
            return None
        vs = []
        xs = (n.get('c') or []) + ([n['obj']] if n.get('obj') else []) + (n.get('a') or [])
        for x in xs:
            x = strip(x)
            if x.get('k') == 'var' and x['dk'] == 'param':
                vs.append(x['id'])
        for a, b in self.pairs:
            if sorted(vs) == sorted((a, b)):
                return a, op == '!='
        return None

    def assume(self, n, truth, st):
        facts, verdict = st
        p = self.cmp_pair(n)
        if p:
            a, ne = p
            left = truth == ne
            if left and ('done', a) in facts or not left and ('left', a) in facts:
                return ()
            return ((facts | {('left' if left else 'done', a)}, verdict),)
        m = strip(n)
        if m.get('k') == 'var' and m['dk'] == 'param' and m['id'] in self.qp:
            return (st,) if truth == self.quick else ()
        # the verdict so far: a field, a local or truth()
        if m.get('k') in ('field', 'var', 'call') and ((m.get('ty') or {}).get('s') or '').replace('const ', '') == 'bool':
            if self.is_add(m) or m.get('k') == 'call' and m.get('n') == 'truth' or m.get('k') != 'call':
                if verdict in (True, False) and verdict != truth:
                    return ()
                return ((facts, truth),)
        return (st,)

    def final(self, st):
        facts, verdict = st
        for a, b in self.pairs:
            if ('done', a) not in facts:
                return False
        return True


def proofs(prog, ck):
    fns = {}
    for f in prog.real_fns():
        if (f.cls or '').startswith('ringing::proof<') and f.n == 'prove':
            fns.setdefault(len(f.params), []).append(f)
    todo = [f for fs in fns.values() for f in fs if any(x.get('k') == 'call' and x.get('n') == 'add_row' for x in f.nodes())]
    for f in todo:
        for quick in (False, True):
            fl = Prove(prog, f, quick)
            if len(fl.pairs) < 1 or not fl.qp:
                ck.obligation('every-row', f.at(), None, msg='prove: parameters')
                continue
            try:
                X = fl.run(f, {(frozenset(), None)})
            except Unsupported as e:
                ck.obligation('every-row', f.at(), None, msg='prove: %s' % e)
                continue
            ck.count('proof loops')
            bad = None
            for p in sorted(fl.problems):
                bad = p
            for st in X.ret:
                if not fl.final(st) and not (quick and st[1] is False):
                    bad = bad or ('a %s proof may end with rows left%s' % ('quick' if quick else 'full', '' if not quick else ' although nothing was false'))
            ck.obligation('every-row', f.at(), False if bad else None if fl.unk else True, key='%s|%s' % (f.q, 'quick' if quick else 'full'), msg='prove: %s' % (bad or fl.unk))
        # old failures go before new ones come
        cl = any(x.get('k') == 'call' and x.get('n') in ('clear', 'erase', 'swap') and 'list' in (x.get('rec') or '') for x in f.nodes())
        fresh = any(x.get('k') in ('bin', 'call') and x.get('op') == '=' and 'list' in str((x.get('ty') or {}).get('s')) for x in f.nodes())
        ck.obligation('old-failures', f.at(), True if cl or fresh else False, key=f.q, msg='prove: the failures of an earlier proof are kept')
    # the shorter forms hand every argument on
    for f in prog.real_fns():
        if not (f.cls or '').startswith('ringing::proof<') or f in todo or f.d.get('impl'):
            continue
        if f.n != 'prove' and f.n != 'proof' or not f.params:
            continue
        calls = [x for i in f.inits if i.get('e') for x in walk(i['e']) if x.get('k') == 'call' and x.get('n') == 'prove'] + \
            [x for x in (walk(f.body) if f.body else ()) if x.get('k') == 'call' and x.get('n') == 'prove']
        if len(calls) != 1:
            ck.obligation('handed-on', f.at(), None, msg='%s: %d calls of prove' % (f.n, len(calls)))
            continue
        c = calls[0]
        t = prog.fn(c.get('fn'))
        used = {}
        for i, a in enumerate(c.get('a') or []):
            for x in walk(a):
                if x.get('k') == 'var' and x['dk'] == 'param':
                    used.setdefault(x['id'], []).append(i)
        bad = None
        for i, p in enumerate(f.params):
            s = (p['ty'].get('s') or '').replace('const ', '')
            if i not in used:
                bad = 'an argument is dropped'
            elif t is not None and s in ('bool', 'int'):
                for j in used[i]:
                    if (t.params[j]['ty'].get('s') or '').replace('const ', '') != s:
                        bad = 'an argument is handed on as another'
        # the last two iterators are the rows to prove
        its = [i for i, p in enumerate(f.params) if (p['ty'].get('s') or '').replace('const ', '') not in ('bool', 'int')]
        ci = []
        for a in c.get('a') or []:
            x = strip(a)
            if x.get('k') == 'var' and x['dk'] == 'param' and x['id'] in its:
                ci.append(x['id'])
        if ci[-2:] != its[-2:]:
            bad = bad or 'the rows are handed on in another order'
        if len(its) == 4 and ci != its:
            bad = bad or 'the rows are handed on in another order'
        if len(its) == 2 and len(ci) == 4 and ci[0] != ci[1]:
            bad = bad or 'rows are proved twice'
        ck.obligation('handed-on', f.at(), not bad, key=f.sig(), msg='%s: %s' % (f.n, bad))


def check(prop):
    ck = Check(prop, 'One abstract step of every prover operation, for every combination of occurrences of the row '
               '(in the prover and in those it branches from), occurrences permitted and recording of failures, leaves '
               'exactly the state that describes the rows then held; proof loops reach every row unless quick and false.',
               ['multimap keeps equal rows in order of insertion at the hint (C++11)'])
    prog = load('lib')
    ro = Roles(prog)
    parts = entry_parts(prog.rec_q['ringing::linedetail']) if 'ringing::linedetail' in prog.rec_q else None
    if not ro.ok or not parts:
        ck.obligation('step-verdict', 'ringing/proof.h', None, msg='the prover\'s members could not be told apart')
    else:
        for name, d in (('add_row', 1), ('remove_row', -1)):
            if name in ro.ms:
                step(prog, ro, parts, name, d, ck, ro.ms[name])
        observers(prog, ro, parts, ck)
    proofs(prog, ck)
    ck.floor('every-row', 1)
    ck.floor('step-verdict', 1)
    return ck.finish()

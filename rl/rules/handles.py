"""Owning handles: every object is deleted exactly once, after its last handle."""
from .. import ir
from ..heap import Heap, Fault, LV, Undecidable

ELEM = 'witness::object'
KINDS = {
    'ringing::cloning_pointer': 'clone',
    'ringing::shared_pointer': 'share',
    'ringing::cow_pointer': 'cow',
    'ringing::scoped_pointer': 'sole',
}
SLOTS = 'ABC'
LIMIT = 3000


def esc(n):
    return n


class Explore:
    def __init__(self, prog, q, kind):
        self.prog, self.q, self.kind = prog, q, kind
        self.short = q.split('<')[0].split('::')[-1]
        self.fns = [f for f in prog.real_fns() if f.cls == q]
        self.get_c = self.one('get', const=True)
        self.bad = {}         # (fn sig, what) -> fn
        self.und = {}         # fn sig -> reason
        self.applied = {}     # fn sig -> times
        self.states = 0

    def one(self, name, n=0, const=False):
        for f in self.fns:
            if f.n == name and len(f.params) == n and bool(f.get('const')) == const:
                return f
        return None

    # a state: (present slots tuple, frozen store, frozen alive)
    def thaw(self, st):
        h = Heap(self.prog, ELEM)
        h.store = dict(st[1]); h.alive = dict(st[2]); h.n = 1000
        return h

    def freeze(self, present, h):
        ren = {}

        def rn(p):
            root, dot, rest = p.partition('.')
            if '#' in root:
                if root not in ren:
                    ren[root] = '%s#%d' % (root.split('#')[0], len(ren) + 1)
                return ren[root] + dot + rest
            return p

        def rv(v):
            return ('p', rn(v[1])) if isinstance(v, tuple) and v[0] == 'p' else v
        store = {}
        for k in sorted(k for k in h.store if k.split('.')[0] in present):
            store[k] = rv(h.store[k])
        todo = True
        while todo:
            todo = False
            for root in list(ren):
                if root in h.store and ren[root] not in store:
                    store[ren[root]] = rv(h.store[root])
                    todo = True
        for r in sorted(h.alive):
            if r not in ren:
                rn(r)
        alive = tuple(sorted((ren[r], k) for r, k in h.alive.items()))
        return (tuple(sorted(present)), tuple(sorted(store.items(), key=str)), alive)

    def held(self, h, s):
        h.steps = 0
        if self.get_c:
            return h.call(self.get_c, s, [])
        r = self.one('get')
        return h.call(r, s, [])

    def ops(self):
        """(function, kind of operation)"""
        out = []
        for f in self.fns:
            P = f.params
            nm = f.n
            if f.get('ctor'):
                if f.get('ctor') == 'copy':
                    out.append((f, 'copy'))
                elif not P or P[0].get('def') is not None and False:
                    out.append((f, 'default'))
                elif P and P[0]['ty'].get('ptr') and all('(*)' in p['ty'].get('s', '') for p in P[1:]):
                    out.append((f, 'adopt'))
            elif f.get('dtor'):
                out.append((f, 'dtor'))
            elif nm == 'operator=' and len(P) == 1:
                out.append((f, 'assign'))
            elif nm == 'swap' and len(P) == 1:
                out.append((f, 'swap'))
            elif nm == 'reset':
                if not P:
                    out.append((f, 'reset0'))
                elif len(P) == 1:
                    out.append((f, 'reset1'))
            elif nm == 'release' and not P:
                out.append((f, 'release'))
            elif nm in ('get', 'operator->', 'operator*') and not P:
                out.append((f, 'access'))
            elif nm == 'clone' and not P:
                out.append((f, 'unshare'))
        return out

    def run(self):
        ops = self.ops()
        dtor = [f for f, k in ops if k == 'dtor']
        self.dtor = dtor[0] if dtor else None
        start = self.freeze((), Heap(self.prog, ELEM))
        seen = {start}
        work = [start]
        while work:
            st = work.pop()
            self.states += 1
            for nst in self.step(st, ops):
                if nst not in seen and len(seen) < LIMIT:
                    seen.add(nst)
                    work.append(nst)
        return ops

    def step(self, st, ops):
        present = st[0]
        for f, k in ops:
            if f.usr in self.und:
                continue
            targets = [s for s in SLOTS if (s in present) != (k in ('copy', 'default', 'adopt'))]
            if k in ('copy', 'default', 'adopt'):
                targets = targets[:1]
            for s in targets:
                others = [o for o in present] if k in ('copy', 'assign', 'swap') else [None]
                if k == 'adopt':
                    others = ['new', 'null']
                if k == 'reset1':
                    others = ['new', 'null'] + (['same'] if self.kind in ('share', 'cow') else [])
                for o in others:
                    r = self.apply(st, f, k, s, o)
                    if r is not None:
                        yield r

    def apply(self, st, f, k, s, o):
        present = set(st[0])
        try:
            h = self.thaw(st)
            before = {x: self.held(h, x) for x in present}
            alive0 = set(h.alive)
            self.applied[f.usr] = self.applied.get(f.usr, 0) + 1
            h.steps = 0
            r = None
            want = dict(before)
            freed = []
            if k in ('default',):
                h.call(f, s, [])
                want[s] = 0
            elif k == 'adopt':
                v = h.new_elem() if o == 'new' else 0
                vals = [v]
                for i, p in enumerate(f.params[1:]):
                    vals.append(('f', 'clone!' if (not p['ty'].get('s', '').startswith('void')) else 'delete!'))
                h.call(f, s, vals)
                want[s] = v
            elif k == 'copy':
                h.call(f, s, [LV(o)])
                want[s] = before[o]
            elif k == 'assign':
                h.call(f, s, [LV(o)])
                want[s] = before[o]
            elif k == 'swap':
                h.call(f, s, [LV(o)])
                want[s], want[o] = before[o], before[s]
            elif k == 'reset0':
                h.call(f, s, [])
                want[s] = 0
            elif k == 'reset1':
                v = h.new_elem() if o == 'new' else 0 if o == 'null' else before[s]
                h.call(f, s, [v])
                want[s] = v
            elif k == 'release':
                r = h.call(f, s, [])
                if r != before[s]:
                    raise Fault('does not return the object it held')
                want[s] = 0
                if r != 0:
                    if r[1] not in h.alive:
                        raise Fault('hands out a deleted object')
                    del h.alive[r[1]]
            elif k in ('access', 'unshare'):
                if f.n == 'operator*' and before[s] == 0:
                    return None
                r = h.call(f, s, [])
                if isinstance(r, LV):
                    r = ('p', r.p)
                if f.get('const') or self.kind != 'cow':
                    if r != before[s] and k == 'access':
                        raise Fault('does not give access to the object it holds')
                else:
                    got = self.held(h, s)
                    if (got == 0) != (before[s] == 0):
                        raise Fault('loses the object it holds')
                    if k == 'access' and r != got:
                        raise Fault('gives access to an object it does not hold')
                    sharers = [x for x in present if x != s and before[x] != 0 and before[x] == before[s]]
                    if not sharers and got != before[s]:
                        pass
                    if got != 0 and got in [before[x] for x in present if x != s]:
                        raise Fault('gives write access to an object that another handle shares')
                    want[s] = got
            elif k == 'dtor':
                h.call(f, s, [])
                present.discard(s)
                want.pop(s)
                for c in [c for c in h.store if c.startswith(s + '.')]:
                    del h.store[c]
            if k in ('default', 'adopt', 'copy'):
                present.add(s)
            now = {x: self.held(h, x) for x in present}
            for x in sorted(present):
                w = want[x]
                if k in ('copy', 'assign') and x == s and self.kind == 'clone':
                    if (now[x] == 0) != (w == 0):
                        raise Fault('the copy is null when the original is not, or the other way round')
                    if now[x] != 0 and now[x] in [before[y] for y in before if y != s or k == 'copy']:
                        raise Fault('the copy shares the object of the original')
                elif now[x] != w:
                    raise Fault('changes the object another handle holds' if x not in (s, o)
                                else 'leaves a handle with the wrong object')
                if now[x] != 0 and now[x][1] not in h.alive:
                    raise Fault('deletes an object that a handle still holds')
            live = {v[1] for v in now.values() if v != 0}
            for p, kd in h.alive.items():
                if kd == 'elem' and p not in live:
                    raise Fault('leaves an object that no handle holds and nothing will delete')
            if not present and h.alive:
                raise Fault('leaves a counter allocated after the last handle is gone')
            return self.freeze(present, h)
        except Fault as e:
            self.bad.setdefault((f.usr, e.what), (f, e, k))
        except Undecidable as e:
            self.und.setdefault(f.usr, str(e))
        except KeyError as e:
            self.und.setdefault(f.usr, 'key %s' % e)
        return None


def run(ck, prog):
    for base, kind in sorted(KINDS.items()):
        q = '%s<%s>' % (base, ELEM)
        fns = [f for f in prog.real_fns() if f.cls == q]
        if not fns:
            ck.count('handle classes not found')
            continue
        x = Explore(prog, q, kind)
        ops = x.run()
        ck.count('handle states', x.states)
        for f, k in ops:
            n = x.applied.get(f.usr, 0)
            ck.count('handle operations applied', n)
            bad = [v for (u, w), v in x.bad.items() if u == f.usr]
            where = f.at()
            key = '%s|%s' % (f.sig(), k)
            if bad:
                for g, e, _ in bad:
                    ck.obligation('handle operations keep counts exact', g.at(e.n) if e.n and e.n.get('l') else where, False,
                                  key + '|' + e.what, '%s %s' % (f.sig(), e.what))
            else:
                ck.obligation('handle operations keep counts exact', where,
                              None if f.usr in x.und or not n else True, key, x.und.get(f.usr, 'never applied'))

"""Comparison operators obey the laws of equality and order."""
from .. import ir
from ..absval import Eval, Oracle, Obj, Undecidable, NullDeref, CMP
from ..report import Check


def group_ops(prog, fns):
    """class -> op -> Fn for operators comparing two objects of one class."""
    out = {}
    for f in fns:
        if not f.n.startswith('operator') or f.n[8:] not in CMP:
            continue
        if not (f.get('ret') or {}).get('b') and not f.get('dep'):
            continue
        ps = [p['ty'] for p in f.params]

        def cls(t):
            return t.get('cls') or (t.get('s') or '').replace('const ', '').replace('&', '').strip()
        if f.cls and len(ps) == 1:
            a, b = f.cls, cls(ps[0])
            if f.get('dep'):
                a = a.split('::')[-1]; b = b.split('::')[-1]
        elif len(ps) == 2:
            a, b = cls(ps[0]), cls(ps[1])
        else:
            continue
        if a != b:
            continue
        if f.get('inst'):
            continue
        out.setdefault(a, {})[f.n[8:]] = f
    return out


# Class invariants of the representation (each confirmed by reading the class):
# a change on no bells has no swaps: both place-notation constructors and
# swappair only add a swap s with s + 2 <= the number of bells.
INVARIANTS = [('.n', 0, '.swaps', 0)]


def feasible(store):
    for k, v in store.items():
        for a, av, b, bv in INVARIANTS:
            if k.endswith(a) and v == av:
                o = k[:-len(a)] + b
                if o in store and store[o] != bv:
                    return False
    return True


class Laws:
    def __init__(self, prog, ops):
        self.prog = prog
        self.ops = ops

    def call(self, ev, op, a, b):
        f = self.ops[op]
        if f.cls and len(f.params) == 1:
            r = ev.inline(f, a, [b])
        else:
            r = ev.inline(f, Obj('functor'), [a, b])
        if isinstance(r, Obj):
            r = ev.rank(r.p, {'b': 1})
        return bool(r)

    def test(self, law, nobj, ranks, body):
        """Returns None if the law holds under every ordering, else text."""
        orc = Oracle()
        bad = None

        def once():
            ev = Eval(self.prog, orc, ranks)
            objs = [Obj(x) for x in 'abc'[:nobj]]
            r = body(lambda op, x, y: self.call(ev, op, x, y), *objs)
            return r, dict(ev.store)
        for r, store in orc.all(once):
            if not r and feasible(store):
                bad = ', '.join('%s=%s' % (k, v) for k, v in sorted(store.items()))
                return bad or 'always'
        self.runs = orc.runs
        return None


def laws(ops):
    L = []
    if '==' in ops:
        L.append(('x == x', 1, 2, lambda c, a: c('==', a, a)))
        L.append(('x == y implies y == x', 2, 2, lambda c, a, b: c('==', a, b) == c('==', b, a)))
        L.append(('== is transitive', 3, 3,
                  lambda c, a, b, d: not (c('==', a, b) and c('==', b, d)) or c('==', a, d)))
        if '!=' in ops:
            L.append(('x != y is not (x == y)', 2, 2, lambda c, a, b: c('!=', a, b) != c('==', a, b)))
    elif '!=' in ops:
        L.append(('not (x != x)', 1, 2, lambda c, a: not c('!=', a, a)))
    if '<' in ops:
        L.append(('not (x < x)', 1, 2, lambda c, a: not c('<', a, a)))
        L.append(('not both x < y and y < x', 2, 2, lambda c, a, b: not (c('<', a, b) and c('<', b, a))))
        L.append(('< is transitive', 3, 3,
                  lambda c, a, b, d: not (c('<', a, b) and c('<', b, d)) or c('<', a, d)))
        if '==' in ops:
            L.append(('exactly one of x < y, x == y, y < x', 2, 2,
                      lambda c, a, b: c('<', a, b) + c('==', a, b) + c('<', b, a) == 1))
        if '>' in ops:
            L.append(('x > y is y < x', 2, 2, lambda c, a, b: c('>', a, b) == c('<', b, a)))
        if '<=' in ops:
            L.append(('x <= y is not (y < x)', 2, 2, lambda c, a, b: c('<=', a, b) == (not c('<', b, a))))
        if '>=' in ops:
            L.append(('x >= y is not (x < y)', 2, 2, lambda c, a, b: c('>=', a, b) == (not c('<', a, b))))
    return L


def check(prop):
    C = Check(prop, 'Every family of comparison operators over one class, and every two-argument comparison functor, is '
              'evaluated abstractly under every ordering of the values it compares (members, results of accessors, '
              'library-typed members taken as totally ordered), callees inlined; the laws of equivalence and of strict '
              'order, agreement of !=, >, <=, >= with == and <, and absence of null dereference must hold under all.',
              ['std:: containers and the types underlying library iterators order their values consistently',
               'distinct nonnull owning pointers own distinct objects of any value',
               'mutable identity assigned on first comparison is unique'])
    done = set()
    for prog, fns in ir.everywhere():
        fams = group_ops(prog, fns)
        for f in fns:
            if f.n == 'operator()' and len(f.params) == 2 and (f.get('ret') or {}).get('b') and not f.get('dep'):
                t0, t1 = f.params[0]['ty'].get('s'), f.params[1]['ty'].get('s')
                if t0 == t1:
                    fams.setdefault('functor ' + f.cls, {})['eq' if 'eq' in f.cls.split('::')[-1] else '<'] = f
        for cls, ops in sorted(fams.items()):
            if 'eq' in ops:
                ops = {'==': ops['eq']}
            anyf = next(iter(ops.values()))
            key = (cls, anyf.file)
            if key in done:
                continue
            done.add(key)
            C.count('operator families')
            L = Laws(prog, ops)
            for name, nobj, ranks, body in laws(ops):
                f = next((ops[o] for o in ('==', '<', '!=') if o in ops and o in name), anyf)
                k = '%s: %s' % (cls, name)
                try:
                    bad = L.test(name, nobj, ranks, body)
                except Undecidable as e:
                    C.obligation('comparison law', f.at(), None, msg='%s (%s)' % (k, e))
                    continue
                except NullDeref as e:
                    C.obligation('comparison law', f.at(), False, '%s: null dereference' % cls,
                                 'comparing two %s objects dereferences a null pointer when only one of them is null' % cls)
                    continue
                C.obligation('comparison law', f.at() + ' ' + k, bad is None, k,
                             'law "%s" fails for %s when %s' % (name, cls, bad))
    C.floor('comparison law', 60)
    return C.finish()

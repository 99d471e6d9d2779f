"""Which exception types escape each function (a fixpoint over the call graph).

Only exceptions the program itself raises, and those of the few library calls
that report bad input by throwing, are tracked; exhaustion of memory is not."""
from .ir import children

STD_THROWS = {
    'std::stoi': ('std::invalid_argument', 'std::out_of_range'), 'std::stol': ('std::invalid_argument', 'std::out_of_range'),
    'std::stoul': ('std::invalid_argument', 'std::out_of_range'), 'std::stod': ('std::invalid_argument', 'std::out_of_range'),
}
STD_PARENT = {'std::invalid_argument': 'std::logic_error', 'std::out_of_range': 'std::logic_error',
              'std::domain_error': 'std::logic_error', 'std::length_error': 'std::logic_error',
              'std::logic_error': 'std::exception', 'std::runtime_error': 'std::exception',
              'std::overflow_error': 'std::runtime_error', 'std::underflow_error': 'std::runtime_error',
              'std::range_error': 'std::runtime_error', 'std::bad_alloc': 'std::exception',
              'std::bad_cast': 'std::exception', 'std::ios_base::failure': 'std::runtime_error'}


def masked(cond):
    st = [cond]
    while st:
        n = st.pop()
        if n is None:
            continue
        if n.get('k') == 'call' and n.get('n') == 'exceptions' and n.get('obj') is not None and not n.get('a'):
            return True
        st += children(n)
    return False


class Throws:
    def __init__(self, prog, cannot=()):
        self.prog = prog
        self.cannot = {}
        for q, t in cannot:
            self.cannot.setdefault(q, set()).add(t)
        self.esc = {}      # usr -> {type: (fn, node) origin}
        self.compute()

    def is_a(self, t, base):
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if x == base:
                return True
            if x in seen:
                continue
            seen.add(x)
            if x in STD_PARENT:
                st.append(STD_PARENT[x])
            r = self.prog.rec_q.get(x)
            if r:
                st += [b.get('q') for b in r.bases]
        return False

    def compute(self):
        prog = self.prog
        self.callees = {}
        work = []
        for f in prog.real_fns():
            self.esc[f.usr] = {}
            work.append(f)
        changed = True
        n = 0
        while changed and n < 60:
            n += 1
            changed = False
            for f in work:
                new = self.scan_fn(f)
                if set(new) != set(self.esc[f.usr]):
                    self.esc[f.usr] = new
                    changed = True

    def scan_fn(self, f):
        out = {}
        for i in f.inits:
            if i.get('e'):
                self.scan(f, i['e'], out, [])
        self.scan(f, f.body, out, [])
        if f.get('noexcept') and not f.get('dtor'):
            return {}
        for q, ts in self.cannot.items():
            if f.q == q or f.q.startswith(q + '<'):
                for t in ts:
                    out.pop(t, None)
        return out

    def merge(self, out, types):
        for t, o in types.items():
            out.setdefault(t, o)

    def scan(self, f, n, out, rethrow):
        if n is None:
            return
        k = n.get('k')
        if k == 'try':
            inner = {}
            self.scan(f, n['b'], inner, rethrow)
            for h in n.get('h', []):
                caught = {}
                for t in list(inner):
                    if h.get('all') or t is not None and self.is_a(t, h['ty'].get('cls') or h['ty'].get('s')):
                        caught[t] = inner.pop(t)
                self.scan(f, h.get('b'), out, rethrow + [caught])
            self.merge(out, inner)
            return
        if k == 'lambda':
            return
        if k == 'if' and masked(n.get('cond')):
            # rethrown only if the caller asked the stream for exceptions
            self.scan(f, n.get('cond'), out, rethrow)
            self.scan(f, n.get('else'), out, rethrow)
            return
        if k == 'switch':
            dead = self.dead_default(n)
            if dead is not None:
                self.scan(f, n.get('var'), out, rethrow)
                self.scan(f, n.get('cond'), out, rethrow)
                for s in n['b'].get('c', [])[:dead]:
                    self.scan(f, s, out, rethrow)
                return
        if k == 'throw':
            if not n.get('c'):
                if rethrow:
                    self.merge(out, rethrow[-1])
            else:
                t = n.get('tt') or {}
                t = t.get('cls') or t.get('s')
                out.setdefault(t, (f, n))
        for c in children(n):
            self.scan(f, c, out, rethrow)
        if k in ('call', 'ctor', 'new'):
            for t, o in self.node(f, n).items():
                out.setdefault(t, o)

    def dead_default(self, n):
        """Index of a closing default label that no enumerator reaches."""
        c = n.get('cond')
        while c is not None and c.get('k') in ('cast', 'icast') and c.get('c'):
            c = c['c'][0]
        e = self.prog.enums.get(((c or {}).get('ty') or {}).get('s', '').replace('const ', '').replace('enum ', ''))
        b = n.get('b')
        if not e or not b or b.get('k') != 'block':
            return None
        body = b.get('c', [])
        vals, at = set(), None
        for i, s in enumerate(body):
            while s is not None and s.get('k') in ('case', 'default'):
                if s['k'] == 'default':
                    at = i
                elif at is not None:
                    return None
                else:
                    vals.add(s.get('cv'))
                s = s.get('s')
        if not at or not {x['v'] for x in e['c']} <= vals:
            return None
        p = body[at - 1]
        while p.get('k') == 'case' and p.get('s'):
            p = p['s']
        return at if p.get('k') in ('break', 'ret', 'throw', 'continue') else None

    def node(self, f, n):
        """Types the call/ctor node itself may raise."""
        out = {}
        if n['k'] == 'call':
            ts = self.prog.targets(n)
            for t in ts:
                self.merge(out, self.esc.get(t.usr, {}))
            if not ts:
                for t in STD_THROWS.get(n.get('q'), ()):
                    out[t] = (f, n)
        elif n['k'] == 'ctor':
            t = self.prog.fn(n.get('fn')) if n.get('fn') else None
            if t is not None and t.body is not None:
                self.merge(out, self.esc.get(t.usr, {}))
        return out


def of(prog):
    if getattr(prog, '_throws', None) is None:
        prog._throws = Throws(prog)
    return prog._throws

"""A forward, path-merging abstract interpreter over the exported syntax trees.

A rule subclasses Flow and gives transfer functions over its own finite,
hashable abstract states.  The engine runs *sets* of states through the
statements (so it is path-sensitive in the rule's own domain), iterates loops
to a fixpoint, and keeps normal, break, continue, return and throw exits
apart."""
from .ir import children


class Unsupported(Exception):
    pass


class Exits:
    __slots__ = ('brk', 'cont', 'ret', 'thr')

    def __init__(self):
        self.brk = set(); self.cont = set(); self.ret = set(); self.thr = set()


class Flow:
    MAX_STATES = 4000
    MAX_ITER = 200

    def __init__(self, prog):
        self.prog = prog
        self.x = None

    # -- hooks ---------------------------------------------------------------
    def leaf(self, n, st):
        """State(s) after evaluating expression n, its children done."""
        return (st,)

    def assume(self, n, truth, st):
        """State(s) in which condition n evaluated to truth."""
        return (st,)

    def assume_case(self, cond, case, st):
        return (st,)

    def declare(self, v, st):
        """After the initialiser of local variable v has been evaluated."""
        return (st,)

    def leave(self, v, st):
        """Local variable v goes out of scope."""
        return (st,)

    def may_throw(self, n, st):
        """Types a call/ctor node may throw: iterable of type names (None for
        'something unknown')."""
        return ()

    def thrown_type(self, n):
        t = n.get('tt')
        return (t.get('cls') or t.get('s')) if t else None

    def catches(self, h, typ):
        """Whether handler h takes an exception of type typ: True/False/None."""
        if h.get('all'):
            return True
        if typ is None:
            return None
        hc = h['ty'].get('cls') or h['ty'].get('s')
        return self.prog.is_a(typ, hc)

    def on_catch(self, h, st):
        return (st,)

    def on_return(self, n, st):
        return (st,)

    def on_throw(self, n, typ, st):
        return (st,)

    def noreturn(self, n, st):
        """A call that never returns (assert failure, exit, abort)."""
        return

    def loop_var(self, n, st):
        """Each iteration of a range-for."""
        return (st,)

    # -- expressions ---------------------------------------------------------
    def many(self, f, S):
        out = set()
        for s in S:
            for t in f(s):
                out.add(t)
        if len(out) > self.MAX_STATES:
            raise Unsupported('too many abstract states')
        return out

    def ev(self, n, S):
        if n is None or not S:
            return S
        k = n.get('k')
        if k == 'bin' and n['op'] in ('&&', '||'):
            T, F = self.condev(n, S)
            return self.many(lambda s: self.leaf(n, s), T | F)
        if k == 'cond':
            T, F = self.condev(n['c'][0], S)
            R = self.ev(n['c'][1], T) | self.ev(n['c'][2], F)
            return self.many(lambda s: self.leaf(n, s), R)
        if k == 'lambda':
            return self.many(lambda s: self.leaf(n, s), S)
        if k == 'sizeof' or k == 'typeid':
            return S
        if k == 'throw':
            for c in n.get('c', []):
                S = self.ev(c, S)
            typ = self.thrown_type(n)
            for s in S:
                for t in self.on_throw(n, typ, s):
                    self.x.thr.add((typ, t))
            return set()
        if k == 'bin' and (n['op'] == '=' or n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>=')):
            S = self.ev(n['c'][1], S)
            S = self.ev(n['c'][0], S)
        else:
            for c in children(n):
                S = self.ev(c, S)
        if k == 'call' and n.get('nr'):
            for s in S:
                self.noreturn(n, s)
            return set()
        if k in ('call', 'ctor', 'new', 'del'):
            for s in S:
                for typ in self.may_throw(n, s):
                    self.x.thr.add((typ, s))
        return self.many(lambda s: self.leaf(n, s), S)

    def condev(self, n, S):
        if n is None:
            return S, set()
        k = n.get('k')
        if k == 'bin' and n['op'] == '&&':
            T, F = self.condev(n['c'][0], S)
            T2, F2 = self.condev(n['c'][1], T)
            return T2, F | F2
        if k == 'bin' and n['op'] == '||':
            T, F = self.condev(n['c'][0], S)
            T2, F2 = self.condev(n['c'][1], F)
            return T | T2, F2
        if k == 'un' and n['op'] == '!':
            T, F = self.condev(n['c'][0], S)
            return F, T
        if k == 'bin' and n['op'] == ',':
            S = self.ev(n['c'][0], S)
            return self.condev(n['c'][1], S)
        if k == 'bool':
            return (S, set()) if n['v'] else (set(), S)
        if k == 'int':
            return (S, set()) if n['v'] else (set(), S)
        if k == 'cond':
            T, F = self.condev(n['c'][0], S)
            T1, F1 = self.condev(n['c'][1], T)
            T2, F2 = self.condev(n['c'][2], F)
            return T1 | T2, F1 | F2
        if k in ('icast', 'cast') and n.get('ck') in ('IntegralToBoolean', 'PointerToBoolean', 'NoOp') \
                and n['c'][0].get('k') in ('bool', 'int') or k == 'cast' and n.get('ck') == 'NoOp':
            return self.condev(n['c'][0], S)
        S = self.ev(n, S)
        T = self.many(lambda s: self.assume(n, True, s), S)
        F = self.many(lambda s: self.assume(n, False, s), S)
        return T, F

    # -- statements ----------------------------------------------------------
    def ex(self, n, S):
        """Execute statement n from states S; returns states at normal exit."""
        if n is None or not S:
            return S
        k = n.get('k')
        m = getattr(self, 's_' + k, None) if k in _STMTS else None
        if m:
            return m(n, S)
        return self.ev(n, S)

    def s_block(self, n, S):
        return self._scoped(n.get('c', []), S)

    def _scoped(self, stmts, S):
        outer = self.x
        self.x = Exits()
        vars_ = []
        try:
            for st in stmts:
                if st is None:
                    continue
                if st.get('k') == 'decl':
                    vars_ += st.get('c', [])
                S = self.ex(st, S)
            inner = self.x
        finally:
            self.x = outer
        for v in reversed(vars_):
            if v.get('static'):
                continue
            S = self.many(lambda s: self.leave(v, s), S)
            inner.brk = self.many(lambda s: self.leave(v, s), inner.brk)
            inner.cont = self.many(lambda s: self.leave(v, s), inner.cont)
            inner.ret = self.many(lambda s: self.leave(v, s), inner.ret)
            inner.thr = {(t, s2) for (t, s) in inner.thr for s2 in self.leave(v, s)}
        outer.brk |= inner.brk; outer.cont |= inner.cont
        outer.ret |= inner.ret; outer.thr |= inner.thr
        return S

    def s_decl(self, n, S):
        for v in n.get('c', []):
            if v.get('init'):
                S = self.ev(v['init'], S)
            S = self.many(lambda s: self.declare(v, s), S)
        return S

    def s_if(self, n, S):
        if n.get('init'):
            S = self.ex(n['init'], S)
        if n.get('var'):
            S = self.ex(n['var'], S)
        T, F = self.condev(n['cond'], S)
        T = self._scoped([n.get('then')], T)
        if n.get('else'):
            F = self._scoped([n['else']], F)
        return T | F

    def _loop(self, S, step):
        """step(S) -> (states to iterate again, states leaving by condition)."""
        outer = self.x
        seen = set(S)
        work = set(S)
        out = set()
        it = 0
        while work:
            it += 1
            if it > self.MAX_ITER:
                raise Unsupported('loop does not converge')
            self.x = Exits()
            try:
                again, leaving = step(work)
                inner = self.x
            finally:
                self.x = outer
            out |= leaving | inner.brk
            outer.ret |= inner.ret; outer.thr |= inner.thr
            nxt = again - seen
            seen |= nxt
            if len(seen) > self.MAX_STATES:
                raise Unsupported('too many abstract states')
            work = nxt
        return out

    def s_while(self, n, S):
        def step(W):
            if n.get('var'):
                W = self.ex(n['var'], W)
            T, F = self.condev(n['cond'], W)
            T = self._scoped([n.get('b')], T)
            T |= self.x.cont; self.x.cont = set()
            return T, F
        return self._loop(S, step)

    def s_do(self, n, S):
        def step(W):
            T = self._scoped([n.get('b')], W)
            T |= self.x.cont; self.x.cont = set()
            return self.condev(n['cond'], T)
        return self._loop(S, step)

    def s_for(self, n, S):
        vars_ = []
        if n.get('init'):
            S = self.ex(n['init'], S)
            if n['init'].get('k') == 'decl':
                vars_ = n['init']['c']

        def step(W):
            T, F = self.condev(n.get('cond'), W)
            T = self._scoped([n.get('b')], T)
            T |= self.x.cont; self.x.cont = set()
            if n.get('inc'):
                T = self.ev(n['inc'], T)
            return T, F
        S = self._loop(S, step)
        for v in reversed(vars_):
            S = self.many(lambda s: self.leave(v, s), S)
        return S

    def s_rfor(self, n, S):
        S = self.ev(n.get('range'), S)

        def step(W):
            T = self.many(lambda s: self.loop_var(n, s), W)
            T = self._scoped([n.get('b')], T)
            T |= self.x.cont; self.x.cont = set()
            return T, set(W)
        return self._loop(S, step)

    def s_switch(self, n, S):
        if n.get('var'):
            S = self.ex(n['var'], S)
        S = self.ev(n['cond'], S)
        outer = self.x
        self.x = Exits()
        cond = n['cond']
        body = n['b']
        stmts = body.get('c', []) if body and body.get('k') == 'block' else [body]
        has_default = False
        cur = set()
        vars_ = []
        cases = []

        def collect(st):
            while st is not None and st.get('k') in ('case', 'default'):
                cases.append(st)
                st = st.get('s')
        for st in stmts:
            collect(st)
        self._switch_cases = cases
        try:
            for st in stmts:
                while st is not None and st.get('k') in ('case', 'default'):
                    if st['k'] == 'default':
                        has_default = True
                    cs = st
                    cur = cur | self.many(lambda s: self.assume_case(cond, cs, s), S)
                    st = st.get('s')
                if st is None:
                    continue
                if st.get('k') == 'decl':
                    vars_ += st['c']
                cur = self.ex(st, cur)
            inner = self.x
        finally:
            self.x = outer
        out = cur | inner.brk
        if not has_default:
            out |= self.many(lambda s: self.assume_case(cond, {'k': 'nodefault', 'cases': cases}, s), S)
        outer.cont |= inner.cont; outer.ret |= inner.ret; outer.thr |= inner.thr
        return out

    def s_break(self, n, S):
        self.x.brk |= S
        return set()

    def s_continue(self, n, S):
        self.x.cont |= S
        return set()

    def s_nop(self, n, S):
        return S

    def s_ret(self, n, S):
        if n.get('e'):
            S = self.ev(n['e'], S)
        self.x.ret |= self.many(lambda s: self.on_return(n, s), S)
        return set()

    def s_try(self, n, S):
        outer = self.x
        self.x = Exits()
        try:
            S = self._scoped([n['b']], S)
            inner = self.x
        finally:
            self.x = outer
        outer.brk |= inner.brk; outer.cont |= inner.cont; outer.ret |= inner.ret
        pend = inner.thr
        for h in n.get('h', []):
            taken, rest = set(), set()
            for (t, s) in pend:
                c = self.catches(h, t)
                if c is True:
                    taken.add(s)
                elif c is None:
                    taken.add(s); rest.add((t, s))
                else:
                    rest.add((t, s))
            pend = rest
            taken = self.many(lambda s: self.on_catch(h, s), taken)
            if taken:
                S = S | self._scoped([h['b']], taken)
        outer.thr |= pend
        return S

    def s_other(self, n, S):
        if n.get('cls') in ('GotoStmt', 'LabelStmt', 'IndirectGotoStmt'):
            raise Unsupported('goto')
        return self.ev(n, S)

    def s_case(self, n, S):
        return self.ex(n.get('s'), S)

    s_default = s_case

    # -- entry ---------------------------------------------------------------
    def run(self, fn, S):
        """Runs the whole function (initialisers, then body).  Returns Exits
        whose .ret also contains the fall-off-the-end states."""
        save = self.x
        self.x = Exits()
        try:
            for i in fn.inits:
                S = self.init(fn, i, S)
            S = self.ex(fn.body, S)
            self.falls = S
            X = self.x
        finally:
            self.x = save
        X.ret |= S
        return X

    def init(self, fn, i, S):
        return self.ev(i.get('e'), S)


_STMTS = {'block', 'decl', 'if', 'while', 'do', 'for', 'rfor', 'switch', 'break', 'continue', 'nop', 'ret',
          'try', 'other', 'case', 'default'}

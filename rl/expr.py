"""Canonical texts of expressions, so that facts and keys survive renaming,
temporaries, extracted predicates and mirrored comparisons."""
from .ir import children, walk

ASSIGN = ('=', '+=', '-=', '*=', '/=', '%=', '|=', '&=', '^=', '<<=', '>>=')
MUTATORS = {'push_back', 'pop_back', 'push_front', 'pop_front', 'insert', 'erase', 'clear', 'swap', 'assign', 'resize', 'reset',
            'splice', 'sort', 'remove', 'reverse', 'unique', 'merge', 'operator=', 'operator+=', 'operator-=', 'operator*=',
            'operator/=', 'operator++', 'operator--', 'operator<<=', 'operator|=', 'operator&=', 'emplace_back', 'emplace', 'append'}


def strip(n):
    while n is not None:
        k = n.get('k')
        if k in ('cast', 'icast') and len(n.get('c') or []) == 1:
            n = n['c'][0]
        elif k == 'ctor' and n.get('ck') in ('copy', 'move') and len(n.get('a') or []) == 1:
            n = n['a'][0]
        elif k == 'init' and len(n.get('a') or []) == 1:
            n = n['a'][0]
        else:
            return n
    return n


def lvroot(n):
    """The variable or this-field an lvalue expression is part of."""
    n = strip(n)
    while n is not None:
        k = n.get('k')
        if k == 'var':
            return ('v', n['dk'], n.get('id'))
        if k == 'field':
            b = strip(n['b'])
            if b.get('k') == 'this':
                return ('f', n['n'])
            n = b
            continue
        if k == 'idx':
            n = strip(n['c'][0])
        elif k == 'call' and n.get('obj') is not None and (n.get('op') in ('[]', '*', '->') or n.get('n') in ('back', 'front', 'at', 'begin', 'end', 'get')):
            n = strip(n['obj'])
        elif k == 'call' and n.get('op') in ('[]', '*', '->') and n.get('a'):
            n = strip(n['a'][0])
        elif k == 'un' and n['op'] in ('*', '&', 'pre++', 'pre--'):
            n = strip(n['c'][0])
        elif k == 'bin' and n['op'] in ASSIGN:
            n = strip(n['c'][0])
        else:
            return None
    return None


def writes(prog, n):
    """Roots of the lvalues node n itself may modify (not its children)."""
    out = []
    k = n.get('k')
    if k == 'bin' and n['op'] in ASSIGN:
        out.append(lvroot(n['c'][0]))
    elif k == 'un' and n['op'] in ('pre++', 'pre--', 'post++', 'post--'):
        out.append(lvroot(n['c'][0]))
    elif k == 'un' and n['op'] == '&':
        out.append(lvroot(n['c'][0]))
    elif k == 'call':
        if n.get('obj') is not None and not n.get('mc') and not (n.get('n') in ('begin', 'end', 'back', 'front', 'operator[]', 'operator*', 'operator->', 'find', 'at', 'get', 'size', 'empty')):
            out.append(lvroot(n['obj']))
        t = prog.fn(n.get('fn')) if n.get('fn') else None
        ps = [p['ty'] for p in t.params] if t is not None else (n.get('pt') or [])
        for i, a in enumerate(n.get('a') or []):
            ty = ps[i] if i < len(ps) and isinstance(ps[i], dict) else None
            if ty is None:
                if n.get('op') in ASSIGN + ('++', '--', '>>') and i == 0 or n.get('op') == '>>' or n.get('n') == 'swap':
                    out.append(lvroot(a))
            elif ty.get('ref') and not (ty.get('s') or '').startswith('const ') and not ty.get('const'):
                out.append(lvroot(a))
        if n.get('obj') is None and n.get('op') in ASSIGN and n.get('a'):
            out.append(lvroot(n['a'][0]))
    return [r for r in out if r]


def const_locals(prog, fn):
    """Locals given a value once and never modified: id -> initialiser."""
    decl, mod = {}, set()
    for n in fn.nodes():
        if n.get('k') == 'decl':
            for v in n.get('c', []):
                if v.get('init') is not None and not v.get('static'):
                    decl[v['id']] = v
        for r in writes(prog, n):
            if r[0] == 'v' and r[1] == 'local':
                mod.add(r[2])
    return {i: v for i, v in decl.items() if i not in mod}


def written_fields(prog):
    """usr -> names of own fields the method may write, calls included."""
    if getattr(prog, '_wf', None) is None:
        direct, calls = {}, {}
        for f in prog.real_fns():
            w, c = set(), set()
            for n in f.nodes():
                for r in writes(prog, n):
                    if r[0] == 'f':
                        w.add(r[1])
                if n.get('k') == 'call':
                    for t in prog.targets(n):
                        if t.cls == f.cls:
                            c.add(t.usr)
            direct[f.usr] = w; calls[f.usr] = c
        ch = True
        while ch:
            ch = False
            for u in direct:
                for v in calls[u]:
                    d = direct.get(v, set()) - direct[u]
                    if d:
                        direct[u] |= d; ch = True
        prog._wf = direct
    return prog._wf



FLIP = {'>': '<', '>=': '<=', '<=': '>=', '<': '>'}


class Canon:
    def __init__(self, prog, fn, sub=None, inline=True, depth=0):
        self.prog = prog; self.fn = fn; self.sub = sub or {}; self.inline = inline; self.depth = depth
        self.consts = const_locals(prog, fn)
        self.stable = {}
        self.busy = set()

    def text(self, n):
        n = strip(n)
        if n is None:
            return ''
        k = n.get('k')
        if k == 'var':
            key = (n['dk'], n.get('id'))
            if key in self.sub:
                return self.sub[key]
            if n['dk'] == 'local' and n['id'] in self.consts and n['id'] not in self.busy:
                v = self.consts[n['id']]
                if self.simple(v['init']) and self.is_stable(v):
                    self.busy.add(n['id'])
                    try:
                        return self.text(v['init'])
                    finally:
                        self.busy.discard(n['id'])
            if n['dk'] in ('param', 'local'):
                return '%s%s' % (n['dk'][0], n['id'])
            return '::' + (n.get('q') or n['n'])
        if k == 'this':
            return self.sub.get('this', 'this')
        if k in ('int', 'bool', 'chr', 'enum'):
            return str(int(n['v']))
        if k == 'null':
            return '0'
        if k == 'zero':
            return '0'
        if k == 'str':
            return repr(n.get('v'))
        if k == 'field':
            b = self.text(n['b'])
            return '%s.%s' % (b, n['n'])
        if k == 'idx':
            return '%s[%s]' % (self.text(n['c'][0]), self.text(n['c'][1]))
        if k == 'un':
            if n['op'] == '!':
                t, p = self.atom(n)
                return t if p else '!' + t
            if n['op'] == '*' :
                return '*' + self.text(n['c'][0])
            return '%s(%s)' % (n['op'], self.text(n['c'][0]))
        if k == 'bin':
            op = n['op']
            if op in ('<', '>', '<=', '>=', '==', '!='):
                t, p = self.atom(n)
                return t if p else '!' + t
            a, b = self.text(n['c'][0]), self.text(n['c'][1])
            if op in ('+', '*', '&', '|', '^', '&&', '||'):
                a, b = sorted((a, b))
            return '(%s%s%s)' % (a, op, b)
        if k == 'cond':
            return '(%s?%s:%s)' % tuple(self.text(c) for c in n['c'])
        if k == 'call':
            op = n.get('op')
            obj = n.get('obj')
            args = n.get('a') or []
            if op in ('<', '>', '<=', '>=', '==', '!='):
                t, p = self.atom(n)
                return t if p else '!' + t
            r = self.inlined(n)
            if r is not None:
                return r
            parts = ([self.text(obj)] if obj is not None else []) + [self.text(a) for a in args if not a.get('da')]
            if op == '[]' and len(parts) == 2:
                return '%s[%s]' % tuple(parts)
            if op == '*' and len(parts) == 1:
                return '*' + parts[0]
            if op == '->' and len(parts) == 1:
                return parts[0]
            if op and len(parts) == 2:
                return '(%s%s%s)' % (parts[0], op, parts[1])
            if obj is not None:
                return '%s.%s(%s)' % (parts[0], n.get('n'), ','.join(parts[1:]))
            return '%s(%s)' % (n.get('n') or (self.text(n['callee']) if n.get('callee') else '?'), ','.join(parts))
        if k == 'ctor':
            a = [self.text(x) for x in n.get('a') or [] if not x.get('da')]
            if len(a) == 1:
                return a[0]
            return '%s(%s)' % (n.get('q'), ','.join(a))
        return '%s(%s)' % (k, ','.join(self.text(c) for c in children(n)))

    def is_stable(self, v):
        """Nothing the initialiser reads changes later in the function."""
        if v['id'] not in self.stable:
            if getattr(self, '_mod', None) is None:
                m = set()
                for n in self.fn.nodes():
                    m |= set(writes(self.prog, n))
                for f in written_fields(self.prog).get(self.fn.usr, ()):
                    m.add(('f', f))
                self._mod = m
            ok = True
            for x in walk(v['init']):
                if x.get('k') in ('var', 'field') and lvroot(x) in self._mod:
                    ok = False
            self.stable[v['id']] = ok
        return self.stable[v['id']]

    def simple(self, n):
        """No side effects (so the expression may stand for the local)."""
        for x in walk(n):
            k = x.get('k')
            if k == 'bin' and x['op'] in ASSIGN or k == 'un' and x['op'] in ('pre++', 'pre--', 'post++', 'post--'):
                return False
            if k in ('new', 'del', 'throw', 'lambda'):
                return False
            if k == 'call' and x.get('obj') is not None and x.get('n') in MUTATORS:
                return False
        return True

    def inlined(self, n):
        """Text of a call to a function that only returns an expression."""
        if not self.inline or self.depth > 4 or n.get('virt') or not n.get('fn'):
            return None
        t = self.prog.fn(n['fn'])
        if t is None or t.body is None or t.usr == self.fn.usr:
            return None
        e = only_return(t)
        if e is None:
            return None
        sub = {}
        if n.get('obj') is not None:
            sub['this'] = self.text(n['obj'])
        args = n.get('a') or []
        for i in range(len(t.params)):
            if i < len(args):
                sub[('param', i)] = self.text(args[i])
        c = Canon(self.prog, t, sub, True, self.depth + 1)
        if not c.simple(e):
            return None
        return c.text(e)

    def atom(self, n):
        """(text, polarity) of a condition."""
        n0 = n
        n = strip(n)
        k = n.get('k')
        op = n.get('op')
        if k == 'un' and op == '!':
            t, p = self.atom(n['c'][0])
            return t, not p
        if op in ('<', '>', '<=', '>=', '==', '!=') and k in ('bin', 'call'):
            xs = n['c'] if k == 'bin' else ([n['obj']] if n.get('obj') is not None else []) + (n.get('a') or [])
            if len(xs) == 2:
                a, b = self.text(xs[0]), self.text(xs[1])
                if op in ('==', '!='):
                    a, b = sorted((a, b))
                    return '(%s==%s)' % (a, b), op == '=='
                if op == '<':
                    return '(%s<%s)' % (a, b), True
                if op == '>':
                    return '(%s<%s)' % (b, a), True
                if op == '>=':
                    return '(%s<%s)' % (a, b), False
                return '(%s<%s)' % (b, a), False
        t = self.text(n)
        pol = True
        while t.startswith('!'):
            t = t[1:]; pol = not pol
        return t, pol


def only_return(t):
    b = t.body
    if b is None or b.get('k') != 'block' or t.inits:
        return None
    ss = [s for s in b.get('c', []) if s is not None and s.get('k') != 'nop']
    if len(ss) == 1 and ss[0].get('k') == 'ret' and ss[0].get('e') is not None:
        return ss[0]['e']
    return None

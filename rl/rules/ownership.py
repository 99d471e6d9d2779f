"""C12: every owned object and resource is released exactly once."""
import re
from .. import ir
from ..report import Check
from . import handles, resources

HANDLE = re.compile(r'^(?:ringing::)?(cloning|shared|scoped|cow)_pointer<(.*)>$')
STDH = re.compile(r'^std::(unique|shared)_ptr<([^,<>]*)(,.*)?>$')


def pointee(q):
    m = HANDLE.match(q or '') or STDH.match(q or '')
    return m.group(2).strip() if m else None


def strip(n):
    while n is not None and n.get('k') in ('cast', 'icast') and n.get('c'):
        n = n['c'][0]
    return n


def used(prog):
    """class -> where an object of it is destroyed through a pointer"""
    out = {}
    for r in prog.recs.values():
        t = pointee(r.q)
        if t:
            out.setdefault(t, 'a %s' % r.q)
    for f in prog.real_fns():
        if not f.file.startswith(ir.REPO):
            continue
        for n in f.nodes():
            if n['k'] == 'del':
                x = n['c'][0].get('ty') or {}
                c = (x.get('pt') or {}).get('cls')
                if c:
                    out.setdefault(c, '%s (delete)' % f.at(n))
    return out


def holds_derived(prog, q, ds):
    for f in prog.real_fns():
        for n in f.nodes():
            if n['k'] not in ('ctor', 'call'):
                continue
            t = prog.fn(n.get('fn')) if n.get('fn') else None
            for i, a in enumerate(n.get('a') or []):
                x = strip(a)
                c = ((x or {}).get('ty') or {}).get('pt') or {}
                if c.get('cls') in ds:
                    if n['k'] == 'ctor' and pointee(n.get('q')) == q or n.get('n') == 'reset' and pointee(n.get('rec')) == q:
                        return True
                    pt = t.params[i]['ty'] if t is not None and i < len(t.params) else {}
                    if (pt.get('pt') or {}).get('cls') == q and t.body is not None and any(
                            (m['k'] == 'ctor' and pointee(m.get('q')) == q or m.get('n') == 'reset' and pointee(m.get('rec')) == q)
                            and any((strip(b) or {}).get('k') == 'var' and strip(b)['dk'] == 'param' and strip(b)['id'] == i
                                    for b in m.get('a') or []) for m in t.nodes()):
                        return True
    return False


def virtual_dtors(ck, prog, seen):
    for q, where in sorted(used(prog).items()):
        r = prog.rec_q.get(q)
        if r is None or not r.mine or q in seen:
            continue
        d = [x for x in prog.derived(q) if x.mine]
        if not d:
            continue
        seen.add(q)
        ok = bool(r.get('vdtor'))
        if not ok and not r.get('abs') and not holds_derived(prog, q, {x.q for x in d}):
            # nothing of a derived class ever reaches such a handle
            ok = True
        ck.obligation('objects destroyed through a base have a virtual destructor', '%s:%s' % (ir.rel(r.file), r.line),
                      ok, q, '%s is destroyed through %s, has derived classes (%s) and no virtual destructor'
                      % (q, where, ', '.join(x.q for x in d[:3])))


def adoption(ck, prog, fns):
    """A handle is made only from an object nothing else owns."""
    for f in fns:
        if f.get('dep') or pointee(f.cls or ''):
            continue
        for n in f.nodes():
            if n['k'] == 'ctor' and pointee(n.get('q')) and n.get('ck') == 'other' or \
                    n['k'] == 'call' and n.get('n') == 'reset' and pointee(n.get('rec')):
                a = n.get('a') or []
                if not a:
                    continue
                x = strip(a[0])
                if x is None:
                    continue
                bad = None
                if x['k'] == 'call' and x.get('n') == 'get' and (pointee(x.get('rec')) or (x.get('rec') or '').startswith('std::unique_ptr')):
                    bad = 'the object of another handle'
                elif x['k'] == 'this':
                    bad = 'this'
                elif x['k'] == 'un' and x['op'] == '&':
                    y = strip(x['c'][0])
                    if y.get('k') in ('var', 'field'):
                        bad = 'the address of a variable'
                    elif y.get('k') == 'un' and y['op'] == '*' or y.get('k') == 'call' and y.get('op') == '*':
                        bad = 'the object of another handle'
                ck.obligation('handles adopt only objects nothing else owns', f.at(n), bad is None,
                              '%s|%s' % (f.sig(), n.get('q') or n.get('rec')), '%s adopts %s' % (f.sig(), bad))


def check(prop):
    ck = Check(prop, 'Reference-counting and owning handles are evaluated from their syntax trees over every reachable sharing '
               'state of up to three handles; raw resources held by locals are tracked on every path; classes destroyed '
               'through a base need a virtual destructor; handles adopt only fresh objects.',
               ['memory exhaustion is not modelled', 'C library and gdome calls behave as documented'])
    seen = set()
    handles.run(ck, ir.load('lib'))
    for prog, fns in ir.everywhere():
        virtual_dtors(ck, prog, seen)
        adoption(ck, prog, fns)
        resources.run(ck, prog, fns)
        resources.stray(ck, prog, fns)
        resources.new_members(ck, prog, seen)
        if prog.group == 'lib':
            resources.members(ck, prog)
    ck.floor('handle operations keep counts exact', 20)
    ck.floor('raw resources released exactly once', 10)
    ck.floor('objects destroyed through a base have a virtual destructor', 4)
    return ck.finish()

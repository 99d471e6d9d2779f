"""Loads the type-resolved program exported by tool/rlx for every translation
unit of /repo and merges it into one whole-program view."""
import concurrent.futures, glob, hashlib, json, os, subprocess, sys, shutil, fcntl

sys.setrecursionlimit(100000)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RL_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')

# Alternative back-ends of the DOM wrapper which this configuration (gdome)
# does not build: they define the same symbols as dom_gdome.cpp.
NOT_BUILT = {'dom_xerces.cpp', 'dom_stub.cpp'}


class AnalysisBroken(Exception):
    """The analysis could not see the program it is supposed to judge."""


def sources():
    out = []
    for pat in ('ringing/*.cpp', 'apps/*/*.cpp'):
        for f in sorted(glob.glob(os.path.join(REPO, pat))):
            if os.path.basename(f) not in NOT_BUILT:
                out.append(f)
    return out


def witnesses():
    """Units of this framework that only instantiate the repository's
    templates, so that every member is seen with resolved types."""
    return sorted(glob.glob(os.path.join(VERIF, 'tool', 'witness', '*.cpp')))


def headers():
    out = []
    for pat in ('ringing/*.h', 'apps/*/*.h', 'apps/gsiril/escape.awk', 'apps/gsiril/init/*',
                '_build/ringing/common-am.h'):
        out += sorted(glob.glob(os.path.join(REPO, pat)))
    return out


def flags(gen):
    f = ['-std=gnu++17', '-w', '-Wno-register', '-x', 'c++', '-I' + gen, '-I' + REPO,
         '-I' + os.path.join(REPO, '_build'),
         '-I' + os.path.join(VERIF, 'tool', 'config'),
         '-I' + os.path.join(REPO, 'apps/utils'),
         '-I/usr/include/libgdome', '-I/usr/include/glib-2.0',
         '-I/usr/lib/x86_64-linux-gnu/glib-2.0/include', '-I/usr/include/libxml2',
         '-DPACKAGE_VERSION="0.4.0-pre"', '-DHAVE_STDINT_H=1']
    return f


def ensure_tool():
    tool = os.path.join(BUILD, 'rlx')
    src = os.path.join(VERIF, 'tool', 'rlx.cpp')
    stamp = tool + '.sha'
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(tool) and os.path.exists(stamp) and open(stamp).read() == h:
            return tool
        r = subprocess.run([os.path.join(VERIF, 'tool', 'build.sh'), tool],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise AnalysisBroken('exporter does not build:\n' + r.stdout)
        open(stamp, 'w').write(h)
    return tool


def export():
    """Export every unit; returns list of json paths.  The cache key is the
    content of every source and header, so each run judges the current tree."""
    tool = ensure_tool()
    srcs = sources()
    if not srcs:
        raise AnalysisBroken('no sources found under ' + REPO)
    h = hashlib.sha256(open(tool + '.sha').read().encode())
    for f in srcs + headers() + witnesses():
        h.update(f.encode()); h.update(open(f, 'rb').read())
    key = h.hexdigest()[:24]
    outdir = os.path.join(BUILD, 'export', key)
    done = os.path.join(outdir, 'DONE')
    with open(os.path.join(BUILD, '.elock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(done):
            base = os.path.join(BUILD, 'export')
            if os.path.isdir(base):
                old = sorted(os.listdir(base), key=lambda d: os.path.getmtime(os.path.join(base, d)))
                for d in old[:-6]:
                    shutil.rmtree(os.path.join(base, d), ignore_errors=True)
            os.makedirs(outdir)
            gen = os.path.join(outdir, 'gen')
            os.makedirs(gen)
            awk = os.path.join(REPO, 'apps/gsiril/escape.awk')
            ini = os.path.join(REPO, 'apps/gsiril/init/gsiril.init')
            with open(os.path.join(gen, 'init.dat'), 'w') as o:
                subprocess.run(['awk', '-f', awk, ini], stdout=o, check=False)
            fl = flags(gen)

            def one(f):
                out = os.path.join(outdir, (os.path.relpath(f, REPO) if f.startswith(REPO + '/') else
                                            'witness/' + os.path.basename(f)).replace('/', '__') + '.json')
                r = subprocess.run([tool, REPO + '/', out, f, '--'] + fl,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                return f, out, r.returncode, r.stdout
            bad = []
            with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
                for f, out, rc, msg in ex.map(one, srcs + witnesses()):
                    if rc:
                        bad.append('%s: %s' % (f, msg.strip()[:400]))
            if bad:
                shutil.rmtree(outdir, ignore_errors=True)
                raise AnalysisBroken('units that did not parse:\n' + '\n'.join(bad))
            open(done, 'w').write('ok')
    return sorted(glob.glob(os.path.join(outdir, '*.json')))


CHILD_KEYS = ('c', 'a', 'obj', 'callee', 'b', 'init', 'cond', 'then', 'else', 'inc', 'e', 's', 'v2',
              'var', 'range', 'size', 'of', 'params', 'h')


def children(n):
    """Direct child nodes in evaluation order (approximately source order)."""
    k = n.get('k')
    out = []

    def add(x):
        if isinstance(x, dict):
            out.append(x)
        elif isinstance(x, list):
            for y in x:
                if isinstance(y, dict):
                    out.append(y)
    if k == 'call':
        add(n.get('callee')); add(n.get('obj')); add(n.get('a'))
    elif k in ('ctor', 'init', 'uctor'):
        add(n.get('a'))
    elif k in ('field', 'mref', 'depmem'):
        add(n.get('b'))
    elif k == 'new':
        add(n.get('size')); add(n.get('init'))
    elif k == 'lambda':
        add(n.get('b'))
    elif k == 'if':
        for x in ('init', 'var', 'cond', 'then', 'else'):
            add(n.get(x))
    elif k in ('while', 'switch'):
        for x in ('var', 'cond', 'b'):
            add(n.get(x))
    elif k == 'do':
        add(n.get('b')); add(n.get('cond'))
    elif k == 'for':
        for x in ('init', 'cond', 'b', 'inc'):
            add(n.get(x))
    elif k == 'rfor':
        add(n.get('range'))
        v = n.get('var')
        if v and v.get('init'):
            pass
        add(n.get('b'))
    elif k == 'case':
        add(n.get('v')); add(n.get('s'))
    elif k == 'default':
        add(n.get('s'))
    elif k == 'ret':
        add(n.get('e'))
    elif k == 'decl':
        for v in n.get('c', []):
            add(v.get('init'))
    elif k == 'try':
        add(n.get('b'))
        for h in n.get('h', []):
            add(h.get('b'))
    elif k == 'sizeof':
        pass
    else:
        add(n.get('c'))
    return out


def walk(n):
    """Pre-order walk of all nodes below n (lambda bodies included)."""
    stack = [n]
    while stack:
        x = stack.pop()
        yield x
        ch = children(x)
        for y in reversed(ch):
            stack.append(y)


class Fn:
    __slots__ = ('d', 'usr', 'q', 'n', 'file', 'line', 'end', 'cls', 'params', 'body', 'inits', 'prog', '_par', 'tu')

    def __init__(self, d, file, prog, tu):
        self.d = d; self.usr = d['fn']; self.q = d['q']; self.n = d['n']; self.file = file
        self.line = d.get('line'); self.end = d.get('end'); self.cls = d.get('cls'); self.params = d.get('params', [])
        self.body = d.get('body'); self.inits = d.get('inits', []); self.prog = prog; self._par = None; self.tu = tu

    def get(self, k, dflt=None):
        return self.d.get(k, dflt)

    def nodes(self):
        for i in self.inits:
            if i.get('e'):
                yield from walk(i['e'])
        if self.body:
            yield from walk(self.body)

    def parents(self):
        if self._par is None:
            p = {}
            st = [i['e'] for i in self.inits if i.get('e')]
            if self.body:
                st.append(self.body)
            while st:
                x = st.pop()
                for y in children(x):
                    p[id(y)] = x
                    st.append(y)
            self._par = p
        return self._par

    def at(self, n=None):
        line = self.line
        f = self.file
        if n is not None and n.get('l'):
            line = n['l']
            f = n.get('fl', self.file)
        return '%s:%s' % (rel(f), line)

    def sig(self):
        return '%s(%s)' % (self.q, ', '.join(p['ty'].get('s', '?') for p in self.params))

    def __repr__(self):
        return '<Fn %s>' % self.sig()


def rel(f):
    return os.path.relpath(f, REPO) if f and f.startswith(REPO) else f


class Rec:
    __slots__ = ('d', 'q', 'usr', 'file', 'line', 'bases', 'fields', 'methods')

    def __init__(self, d, file):
        self.d = d; self.q = d['q']; self.usr = d['usr']; self.file = file; self.line = d.get('line')
        self.bases = d.get('bases', []); self.fields = d.get('fields', []); self.methods = d.get('methods', [])

    def get(self, k, dflt=None):
        return self.d.get(k, dflt)

    @property
    def mine(self):
        return bool(self.d.get('mine'))

    def __repr__(self):
        return '<Rec %s>' % self.q


def rename(x, old, new):
    if isinstance(x, str):
        return new + x[len(old):] if x == old or x.startswith(old + '::') else x
    if isinstance(x, list):
        return [rename(y, old, new) for y in x]
    if isinstance(x, dict):
        return {k: rename(v, old, new) for k, v in x.items()}
    return x


class Program:
    def __init__(self, jsons):
        self.fns = {}        # usr -> Fn
        self.recs = {}       # usr -> Rec
        self.rec_q = {}      # qualified name -> Rec
        self.enums = {}
        self.globals = {}
        self.tus = []
        self.types = {}
        raw = [(p, json.load(open(p))) for p in jsons]
        owners = {}
        for p, d in raw:
            for r in d['records']:
                if r.get('mine'):
                    owners.setdefault(r['q'], set()).add(r['usr'])
        for p, d in raw:
            # a class in an unnamed namespace whose name another unit also uses
            for r in d['records']:
                if len(owners.get(r['q'], ())) > 1 and '@aN@' in r['usr']:
                    tag = os.path.basename(p)[:-5].split('__')[-1]
                    d = rename(d, r['q'], '%s[%s]' % (r['q'], tag))
            self._load(p, d)
        self.by_q = {}
        for f in self.fns.values():
            self.by_q.setdefault(f.q, []).append(f)
        self._subs = None
        self._overs = None
        self._methods = {}
        for r in self.recs.values():
            for m in r.methods:
                self._methods[m['fn']] = (r, m)

    # -- loading ------------------------------------------------------------
    def _load(self, p, d):
        tu = os.path.basename(p)[:-5].replace('__', '/')
        self.tus.append(tu)
        types = []
        fresh = []
        for t in d['types']:
            s = t['s']
            if s in self.types and self.types[s].get('s') is not None:
                types.append(self.types[s])
            else:
                self.types[s] = t
                types.append(t)
                fresh.append(t)
        for t in fresh:
            if isinstance(t.get('pt'), int):
                t['pt'] = types[t['pt']] if t['pt'] >= 0 else {}
        files = d['files']
        nofile = {}

        def fix(root):
            stack = [root]
            while stack:
                n = stack.pop()
                if isinstance(n, list):
                    stack.extend(n); continue
                for key in ('ty', 'tt', 'at', 'ret'):
                    v = n.get(key)
                    if isinstance(v, int):
                        n[key] = types[v] if v >= 0 else nofile
                if 'pt' in n and isinstance(n['pt'], list):
                    n['pt'] = [types[v] if isinstance(v, int) and v >= 0 else v for v in n['pt']]
                f = n.get('f')
                if f is not None:
                    n['fl'] = files[f]
                for v in n.values():
                    if isinstance(v, list):
                        if v and isinstance(v[0], (dict, list)):
                            stack.extend(x for x in v if isinstance(x, dict) and 's' not in x or isinstance(x, dict) and 'k' in x)
                        elif v and v[0] is None:
                            stack.extend(x for x in v if isinstance(x, dict))
                    elif isinstance(v, dict):
                        if 'k' in v or 'id' in v or 'n' in v and 'ty' in v:
                            stack.append(v)
        for f in d['functions']:
            u = f['fn']
            old = self.fns.get(u)
            if old is not None and old.body is not None:
                continue
            fix(f)
            self.fns[u] = Fn(f, files[f['file']], self, tu)
        for r in d['records']:
            u = r['usr']
            if u in self.recs:
                # keep the richer one
                if self.recs[u].mine or not r.get('mine'):
                    # merge implicit methods seen only in some units
                    have = {m['fn'] for m in self.recs[u].methods}
                    for m in r.get('methods', []):
                        if m['fn'] not in have:
                            m['params'] = [types[x] if isinstance(x, int) and x >= 0 else x for x in m['params']]
                            m['ret'] = types[m['ret']] if isinstance(m['ret'], int) and m['ret'] >= 0 else {}
                            self.recs[u].methods.append(m)
                    continue
            for fl in r.get('fields', []):
                fl['ty'] = types[fl['ty']]
            for m in r.get('methods', []):
                m['params'] = [types[x] if isinstance(x, int) and x >= 0 else x for x in m['params']]
                m['ret'] = types[m['ret']] if isinstance(m['ret'], int) and m['ret'] >= 0 else {}
            R = Rec(r, files[r['file']] if 'file' in r else '')
            self.recs[u] = R
            self.rec_q.setdefault(R.q, R)
            if R.mine and not self.rec_q[R.q].mine:
                self.rec_q[R.q] = R
        for e in d['enums']:
            e['file'] = files[e['file']]
            self.enums.setdefault(e['q'], e)
        for g in d['globals']:
            g['ty'] = types[g['ty']]
            if 'init' in g:
                fix(g['init'])
            if isinstance(g.get('file'), int):
                g['file'] = files[g['file']]
            old = self.globals.get(g['usr'])
            if old is None or (g.get('def') and not old.get('def')):
                self.globals[g['usr']] = g

    # -- queries ------------------------------------------------------------
    def fn(self, usr):
        return self.fns.get(usr)

    def q(self, name):
        return self.by_q.get(name, [])

    def subs(self):
        if self._subs is None:
            s = {}
            for r in self.recs.values():
                for b in r.bases:
                    s.setdefault(b.get('q'), []).append(r)
            self._subs = s
        return self._subs

    def derived(self, q):
        """All records transitively derived from q (q excluded)."""
        out, seen, st = [], set(), [q]
        while st:
            x = st.pop()
            for r in self.subs().get(x, []):
                if r.q not in seen:
                    seen.add(r.q); out.append(r); st.append(r.q)
        return out

    def bases(self, q):
        """q and all its transitive bases (names)."""
        out, st = [], [q]
        while st:
            x = st.pop()
            if x in out:
                continue
            out.append(x)
            r = self.rec_q.get(x)
            if r:
                for b in r.bases:
                    st.append(b.get('q'))
        return out

    def is_a(self, q, base):
        return base in self.bases(q)

    def method(self, usr):
        return self._methods.get(usr)

    def overriders(self, usr):
        """usrs of all methods that (transitively) override usr."""
        if self._overs is None:
            o = {}
            for r in self.recs.values():
                for m in r.methods:
                    for b in m.get('over', []):
                        o.setdefault(b, []).append(m['fn'])
            for f in self.fns.values():
                for b in f.get('over', []) or []:
                    l = o.setdefault(b, [])
                    if f.usr not in l:
                        l.append(f.usr)
            self._overs = o
        out, st = [], [usr]
        while st:
            x = st.pop()
            for y in self._overs.get(x, []):
                if y not in out:
                    out.append(y); st.append(y)
        return out

    def targets(self, call):
        """Functions (with bodies) a call node may reach."""
        u = call.get('fn')
        if not u:
            return []
        out = []
        f = self.fns.get(u)
        if f and f.body is not None:
            out.append(f)
        if call.get('virt'):
            for o in self.overriders(u):
                g = self.fns.get(o)
                if g and g.body is not None and g not in out:
                    out.append(g)
        return out

    def real_fns(self):
        """Non-dependent functions with bodies, plus dependent ones that were
        never instantiated."""
        for f in self.fns.values():
            if f.body is not None:
                yield f


_progs = {}
_units = None


def units():
    """group -> exported units.  Every application is linked separately (class
    and function names repeat between applications), so each is its own
    program: library + apps/utils + the application."""
    global _units
    if _units is None:
        g = {'lib': [], 'utils': []}
        for j in export():
            b = os.path.basename(j)
            if b.startswith(('ringing__', 'witness__')):
                g['lib'].append(j)
            else:
                g.setdefault(b.split('__')[1], []).append(j)
        _units = g
    return _units


def apps():
    return sorted(k for k in units() if k not in ('lib', 'utils'))


def load(group='lib'):
    """group: 'lib', 'utils' (library+utils) or the name of an application."""
    if group not in _progs:
        u = units()
        js = list(u['lib'])
        if group != 'lib':
            js += u['utils']
        if group not in ('lib', 'utils'):
            js += u[group]
        p = Program(js)
        p.group = group
        nf = sum(1 for _ in p.real_fns())
        if nf < 300:
            raise AnalysisBroken('only %d functions seen' % nf)
        _progs[group] = p
    return _progs[group]


def own(p):
    """The functions of program p that belong to its group (library functions
    for 'lib', apps/utils ones for 'utils', the application's own otherwise)."""
    for f in p.real_fns():
        if belongs(f.file, p.group):
            yield f


def belongs(file, group):
    if group == 'lib':
        return file.startswith(os.path.join(REPO, 'ringing/'))
    return file.startswith(os.path.join(REPO, 'apps', group) + '/')


def everywhere():
    """Every program, each with its own functions: (program, [functions])."""
    for g in ['lib', 'utils'] + apps():
        p = load(g)
        yield p, list(own(p))

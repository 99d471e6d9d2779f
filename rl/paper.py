"""The lexical and structural grammar of the PostScript and PDF this library
writes, as a machine fed one piece of output at a time.  A piece is a character
or an unknown: a number of which only the form is known, or a text."""
from collections import namedtuple
import re


class Lin(namedtuple('Lin', 'c t i')):
    """c + t*T + i*I, T the number of the page and I that of the iteration."""
    __slots__ = ()

    def __add__(self, o):
        return Lin(self.c + o.c, self.t + o.t, self.i + o.i)

    def __sub__(self, o):
        return Lin(self.c - o.c, self.t - o.t, self.i - o.i)

    def times(self, k):
        return Lin(self.c * k, self.t * k, self.i * k)

    @property
    def const(self):
        return self.t == 0 and self.i == 0


def L(c):
    return Lin(c, 0, 0)


class Num(namedtuple('Num', 'lin tag width fill base flt neg')):
    __slots__ = ()


class Txt(namedtuple('Txt', 'tainted mask one')):
    __slots__ = ()


ALL = (1 << 256) - 1
PRINT = sum(1 << c for c in range(0x20, 0x7f))


def chars(s):
    return sum(1 << ord(c) for c in set(s))


RISKY = chars('()\\\r')


class Bad(Exception):
    def __init__(self, clause, msg):
        super().__init__(msg)
        self.clause, self.msg = clause, msg


Out = namedtuple('Out', 'lang nest mode depth word cmt ops first col0 base fill width fixed font path font0 '
                        'promise cur linemarks marking atend pages pagefirst pagestep lenmark stream xref size length eof trailer loops note ended defs')


def fresh():
    return Out(lang=None, nest=(), mode='n', depth=0, word=(), cmt=(), ops=(), first=None, col0=True, base=10, fill=' ', width=0, fixed=False,
               font=False, path=False, font0=False, promise=frozenset(), cur=None, linemarks=frozenset(), marking=False, atend=frozenset(), pages=L(0),
               pagefirst=None, pagestep=None, lenmark=None, stream=False, xref=None, size=None, length=None, eof=False, trailer=False, loops=(), note=frozenset(), ended=None, defs=frozenset())


WS = ' \n\t\r\f\0'
DELIM = '()<>[]{}/%'


def plain(items):
    return ''.join(x if isinstance(x, str) else '\x01' if isinstance(x, Num) else '\x02' for x in items)


def isnum(items):
    """The number a word stands for: (True, Num or None)."""
    its = list(items)
    if its and its[0] in ('-', '+') and len(its) > 1:
        if len(its) == 2 and isinstance(its[1], Num):
            return True, None
        its = its[1:]
    if len(its) == 1 and isinstance(its[0], Num):
        return True, its[0]
    if any(not isinstance(x, str) for x in its):
        return False, None
    s = ''.join(its)
    if re.fullmatch(r'\d+', s) and len(its) == len(items):
        return True, Num(L(int(s)), None, len(s), '0', 10, False, False)
    if re.fullmatch(r'\d+(\.\d*)?|\.\d+', s):
        return True, None
    return False, None


class Paper:
    def __init__(self, procs=None, defined=()):
        self.procs = procs or {}
        self.defined = defined

    # -- pieces --------------------------------------------------------------
    def feed(self, o, x):
        if o.lenmark == 'clean' and o.mode == 'n':
            if not (x == '\n' and not o.word) and not (isinstance(x, str) and 'endstream'.startswith(plain(o.word) + x)) and not (x == '\n' and plain(o.word) == 'endstream'):
                o = o._replace(lenmark='stale')
        if o.stream:
            o = o._replace(stream=False)
        if o.mode == 'n':
            o = self.normal(o, x)
        elif o.mode == 'c':
            o = self.comment(o, x)
        elif o.mode == 'p':
            o = self.skip(o, x)
        else:
            o = self.string(o, x)
        return o._replace(col0=(x == '\n'))

    def skip(self, o, x):
        """Inside the prolog, whose text is judged by itself."""
        if x == '\n':
            w = plain(o.cmt)
            return o._replace(cmt=(), mode='n' if w == '%%EndProlog' else 'p', first=None)
        return o._replace(cmt=(o.cmt + (x,))[:40])

    def comment(self, o, x):
        if x == '\n':
            o = self.endcomment(o._replace(mode='n', cmt=()), o.cmt)
            return o._replace(ended=o.first, first=None, linemarks=frozenset())
        if isinstance(x, Txt) and x.tainted:
            raise Bad('escaped', 'text the caller supplied goes into a comment')
        return o._replace(cmt=(o.cmt + (x,))[:60])

    def endcomment(self, o, items):
        words, cur = [], ()
        for x in items:
            if x == ' ':
                if cur:
                    words.append(cur)
                cur = ()
            else:
                cur += (x,)
        if cur:
            words.append(cur)
        head = plain(words[0]) if words else ''
        if o.lang is None:
            if head.startswith('%!PS-Adobe'):
                return o._replace(lang='ps', ops=0)
            if head.startswith('%PDF-'):
                return o._replace(lang='pdf')
            raise Bad('framing', 'a document starts with neither %!PS-Adobe nor %PDF')
        if head == '%%EOF':
            return o._replace(eof=True)
        if o.eof:
            raise Bad('framing', 'something follows the %%EOF')
        if not head.startswith('%%'):
            return o
        rest = words[1:]
        if head == '%%BeginProlog':
            return o._replace(mode='p')
        if head == '%%Trailer':
            return o._replace(trailer=True)
        if head == '%%Page:':
            if len(rest) < 2:
                raise Bad('comments', '%%Page: needs a label and an ordinal')
            ok, n = isnum(rest[1])
            if not ok:
                raise Bad('comments', 'the second value of %%Page: is not a number')
            o = o._replace(pages=o.pages + L(1) if o.pages is not None else None)
            if n and n.lin is not None and o.pages is not None and n.lin != o.pages:
                raise Bad('comments', 'a page is not given its ordinal')
            return o
        if head.endswith(':'):
            key = head[2:-1]
            if rest and plain(rest[0]) == '(atend)':
                return o._replace(atend=o.atend | {key})
            o = o._replace(atend=o.atend - {key})
            if key in ('Pages', 'BoundingBox', 'Orientation', 'LanguageLevel') and not rest:
                raise Bad('comments', '%s has no value' % head)
            if key == 'BoundingBox' and len(rest) != 4:
                raise Bad('comments', '%%BoundingBox: needs four values')
            if key == 'Pages' and o.trailer and rest:
                ok, n = isnum(rest[0])
                if not ok:
                    raise Bad('comments', '%%Pages: is not given a number')
                if n and n.lin is not None and o.pages is not None and n.lin != o.pages:
                    raise Bad('comments', '%%Pages: is not the number of pages')
        return o

    def string(self, o, x):
        m = o.mode
        if m == 'e':
            if isinstance(x, Num):
                if x.base != 8 or x.width != 3 or x.fill != '0':
                    raise Bad('escaped', 'a character code after a backslash is not three octal digits')
                if x.neg:
                    raise Bad('escaped', 'the character code after a backslash may be negative')
                return o._replace(mode='s')
            if isinstance(x, Txt):
                raise Bad('escaped', 'an unknown character follows a backslash')
            if x in '01234567':
                return o._replace(mode='o1')
            if x in 'nrtbf()\\\n':
                return o._replace(mode='s')
            raise Bad('escaped', 'a backslash is followed by %r' % x)
        if m in ('o1', 'o2') and isinstance(x, str) and x in '01234567':
            return o._replace(mode='o2' if m == 'o1' else 's')
        if m in ('o1', 'o2'):
            o = o._replace(mode='s')
            if not isinstance(x, str):
                raise Bad('escaped', 'a short octal code is followed by something unknown')
        if isinstance(x, Num):
            if x.base != 10:
                raise Bad('escaped', 'a number is written in base %d' % x.base)
            return o
        if isinstance(x, Txt):
            if x.tainted and x.mask & RISKY:
                raise Bad('escaped', 'text the caller supplied is written between ( and ) with a bracket, a backslash or a return in it')
            return o
        if x == '\\':
            return o._replace(mode='e')
        if x == '(':
            if o.depth > 4:
                raise Bad('nesting', '( is written again and again and not closed')
            return o._replace(depth=o.depth + 1)
        if x == ')':
            if o.depth == 1:
                return self.token(o._replace(mode='n', depth=0), 'str', None)
            return o._replace(depth=o.depth - 1)
        return o

    def normal(self, o, x):
        if not isinstance(x, str):
            if isinstance(x, Txt) and x.tainted:
                raise Bad('escaped', 'text the caller supplied is written outside a string')
            if isinstance(x, Num):
                if x.base != 10:
                    raise Bad('numbers', 'a number is written in base %d' % x.base)
                if o.word and (isinstance(o.word[-1], Num) or isinstance(o.word[-1], str) and o.word[-1].isdigit()):
                    if o.word[0] != '/':
                        raise Bad('tokens', 'two numbers run together')
                if x.flt and o.lang == 'pdf' and not o.fixed:
                    raise Bad('numbers', 'a fraction may be written with an exponent')
                if o.nest and o.nest[-1][0] == 'xref' and o.nest[-1][2] is not None and not o.word and x.width < 10:
                    raise Bad('xref', 'an offset in the cross-reference table is not ten digits')
            if len(o.word) > 30:
                raise Bad('tokens', 'a word grows without end')
            return o._replace(word=o.word + (x,))
        if x in WS:
            w = o.word
            if x == '\n' and o.nest and o.nest[-1][0] == 'xref' and o.nest[-1][3] == 2 and w:
                raise Bad('xref', 'an entry of the cross-reference table is not twenty bytes')
            o = self.flush(o)
            if o.stream and x not in '\r\n':
                raise Bad('lengths', 'the word stream does not end its line')
            if x == '\n':
                o = self.newline(o)
            return o
        if x in DELIM:
            if x == '/' or x not in '<>' or not o.word or plain(o.word) != x:
                o = self.flush(o)
            if x == '(':
                return o._replace(mode='s', depth=1)
            if x == '%':
                if not o.col0 and o.lang is not None and False:
                    pass
                return o._replace(mode='c', cmt=('%',), note=o.note if o.col0 else o.note | {'mid'})
            if x == '/':
                return o._replace(word=('/',))
            if x in '<>':
                w = plain(o.word) + x
                if w in ('<<', '>>'):
                    return self.token(o._replace(word=()), w, None)
                return o._replace(word=(x,))
            if x == ')':
                raise Bad('tokens', 'a ) that closes nothing')
            return self.token(o, x, None)
        if o.word and isinstance(o.word[-1], Num) and not o.word[0] == '/':
            if x.isdigit() or x == '.':
                raise Bad('tokens', 'a number is followed at once by %r' % x)
        if len(o.word) > 30:
            raise Bad('tokens', 'a word grows without end')
        return o._replace(word=o.word + (x,))

    def newline(self, o):
        return o._replace(ended=o.first, first=None, linemarks=frozenset())

    def flush(self, o):
        if not o.word:
            return o
        w = o.word
        o = o._replace(word=())
        s = plain(w)
        if s in ('<', '>'):
            raise Bad('tokens', 'a lone %s' % s)
        if w[0] == '/':
            if len(w) == 1:
                raise Bad('tokens', 'a / without a name')
            return self.token(o, 'name', s)
        ok, n = isnum(w)
        if ok:
            return self.token(o, 'num', n)
        if any(isinstance(x, Num) for x in w):
            raise Bad('tokens', 'a number runs into %r' % s.replace('\x01', '#').replace('\x02', '?'))
        return self.token(o, 'word', s)

    def token(self, o, kind, v):
        if o.lang is None:
            raise Bad('framing', 'output starts without a header')
        if o.eof:
            raise Bad('framing', 'something follows the %%EOF')
        if o.first is None:
            o = o._replace(first=v if kind == 'word' else kind)
        return self.pdf(o, kind, v) if o.lang == 'pdf' else self.ps(o, kind, v)

    # -- PostScript ----------------------------------------------------------
    def push(self, o, n=1):
        if o.ops is None:
            return o
        if o.ops + n > 40:
            raise Bad('operands', 'operands pile up')
        return o._replace(ops=o.ops + n)

    def need(self, o, need, net, what):
        if o.ops is None:
            return o
        if o.ops < need:
            raise Bad('operands', '%s finds %d of its %d operands' % (what, o.ops, need))
        return o._replace(ops=o.ops + net)

    def open(self, o, e):
        if len(o.nest) > 9 or sum(x[0] == e[0] for x in o.nest) > 4:
            raise Bad('nesting', '%s is opened again and again and not closed' % e[0])
        return o._replace(nest=o.nest + (e,))

    def close(self, o, what, by):
        if not o.nest or o.nest[-1][0] != what:
            raise Bad('nesting', '%s comes where %s is open' % (by, o.nest[-1][0] if o.nest else 'nothing'))
        return o._replace(nest=o.nest[:-1])

    def ps(self, o, kind, v):
        if kind in ('num', 'str', 'name'):
            return self.push(o)
        if kind == '{':
            return self.open(o, ('{', o.ops))._replace(ops=0)
        if kind == '}':
            left = o.ops
            e = o.nest[-1] if o.nest else None
            o = self.close(o, '{', '}')
            if left:
                raise Bad('operands', 'a procedure leaves %d operands' % left)
            return self.push(o._replace(ops=e[1]))
        if kind == '[':
            return self.open(o, ('[', o.ops))._replace(ops=0)
        if kind == ']':
            e = o.nest[-1] if o.nest else None
            o = self.close(o, '[', ']')
            return self.push(o._replace(ops=e[1]))
        if kind in ('<<', '>>'):
            return o._replace(ops=None)
        s = v
        if '\x02' in s:
            return o._replace(ops=None)
        if s == 'save':
            return self.open(o, ('save',))
        if s == 'restore':
            o = self.close(o, 'save', 'restore')
            return o
        if s in ('gsave', 'GS') or self.procs.get(s) == (0, 0, 1):
            return self.open(o, ('gsave',))
        if s == 'grestore' or self.procs.get(s) == (0, 0, -1):
            return self.close(o, 'gsave', s)
        if s in self.procs:
            e = self.procs[s]
            if e is None:
                return o._replace(ops=None)
            return self.need(o, e[0], e[1], s)
        if s in OPS:
            return self.need(o, OPS[s][0], OPS[s][1], s)
        if s in self.defined:
            return o if self.defined[s] else self.push(o)
        raise Bad('operators', 'nothing defines %s' % s)

    # -- PDF -----------------------------------------------------------------
    def pdf(self, o, kind, v):
        top = o.nest[-1][0] if o.nest else None
        if top in ('stream', 'q', 'BT') or top == 'sarr':
            return self.content(o, top, kind, v)
        if top == 'xref':
            return self.table(o, kind, v)
        if kind == 'name':
            return self.value(o, 'name', v)
        if kind == 'num':
            return self.value(o, 'num', v)
        if kind == 'str':
            return self.value(o, 'str', None)
        if kind == '<<':
            return self.open(self.begin(o), ('dict', 'k', None, None))
        if kind == '>>':
            e = o.nest[-1] if o.nest else (None,)
            o = self.close(o, 'dict', '>>')
            if e[1] == 'v' or e[1] == 'n2':
                raise Bad('nesting', 'a dictionary ends without the value of %s' % e[2])
            return self.done(o, 'dict')
        if kind == '[':
            return self.open(self.begin(o), ('arr', o.nest[-1][2] if top == 'dict' else None, 0, None))
        if kind == ']':
            o = self.close(o, 'arr', ']')
            return self.done(o, 'arr')
        if kind in '{}':
            raise Bad('tokens', 'a %s' % kind)
        if v == 'R':
            return self.ref(o)
        if v in ('true', 'false', 'null'):
            return self.value(o, 'word', v)
        if v == 'obj':
            if top is not None:
                raise Bad('nesting', 'an object starts inside another')
            if not isinstance(o.ops, tuple) or len(o.ops) != 2:
                raise Bad('operands', 'obj needs two numbers')
            n = o.ops[0]
            ident = n.lin if n else None
            marked = ident is None or ident in o.linemarks or None in o.linemarks
            return self.open(o, ('obj',))._replace(ops=(), cur=(ident, marked, None, 'any'))
        if v == 'endobj':
            o = self.close(o, 'obj', 'endobj')
            ident, marked, val, kind = o.cur
            if o.marking and not marked:
                raise Bad('offsets', 'the offset recorded for an object is not that of its "n 0 obj"')
            pr = o.promise
            for (k, i) in pr:
                if i is not None and i == ident and k == 'len':
                    if val != 'len':
                        raise Bad('lengths', 'the object a stream names as its length does not hold it')
                    o = o._replace(promise=o.promise - {(k, i)})
            if ident is not None:
                for (k, i) in o.promise:
                    if k != 'len' and i == ident:
                        if k != kind:
                            raise Bad('references', '%s names an object which is not one' % k)
                        o = o._replace(promise=o.promise - {(k, i)})
                if ident.const and kind in ('/Catalog', '/Pages', 'any'):
                    o = o._replace(defs=o.defs | {(ident, kind)})
            return o._replace(cur=None, ops=())
        if v == 'stream':
            if top != 'obj' or o.ops != ('dict',):
                raise Bad('nesting', 'stream does not follow the dictionary of its object')
            if o.length is None:
                raise Bad('lengths', 'a stream has no /Length')
            if o.length != 'direct':
                o = o._replace(promise=o.promise | {('len', o.length[0])})
            return self.open(o, ('stream',))._replace(ops=(), cur=o.cur[:3] + ('stream',), length=None, stream=True, lenmark=None, font=False, path=False)
        if v == 'xref':
            if top is not None:
                raise Bad('nesting', 'the cross-reference table starts inside an object')
            return self.open(o, ('xref', None, None, 0))._replace(first='xref', ops=())
        if v == 'startxref':
            if top == 'trailer':
                o = o._replace(nest=o.nest[:-1])
            elif top is not None:
                raise Bad('nesting', 'startxref inside %s' % top)
            if o.ops != ('dict',):
                raise Bad('nesting', 'the trailer has no dictionary')
            return self.open(o, ('startxref',))._replace(ops=())
        if '\x02' in v:
            return self.value(o, 'word', v)
        raise Bad('operators', 'an unknown word %s outside a stream' % v)

    def begin(self, o):
        e = o.nest[-1] if o.nest else None
        if e and e[0] == 'dict':
            if e[1] not in ('v',):
                raise Bad('nesting', 'a key of a dictionary is not a name')
        return o

    def value(self, o, kind, v):
        e = o.nest[-1] if o.nest else None
        if e and e[0] == 'dict':
            st = e[1]
            if st in ('k', 'n1') and kind == 'name':
                return self.settle(o, e)._replace(nest=o.nest[:-1] + (('dict', 'v', v, None),))
            if st == 'n1' and kind == 'num':
                return o._replace(nest=o.nest[:-1] + (('dict', 'n2', e[2], e[3]),))
            if st != 'v':
                raise Bad('nesting', 'a key of a dictionary is not a name')
            if kind == 'num':
                o = self.number(o, e[2], v)
                return o._replace(nest=o.nest[:-1] + (('dict', 'n1', e[2], v.lin if v else None),))
            if kind == 'name':
                o = self.named(o, e[2], v)
            return o._replace(nest=o.nest[:-1] + (('dict', 'k', e[2], None),))
        if e and e[0] == 'arr':
            n = e[2] if e[1] in ('/MediaBox',) else 0
            return o._replace(nest=o.nest[:-1] + (('arr', e[1], n, (v.lin, o.loops[-1] if o.loops else None) if kind == 'num' and v and (e[3] is None or v.lin != L(0)) else e[3]),))
        if e and e[0] == 'obj':
            if o.cur and kind == 'num':
                o = o._replace(cur=(o.cur[0], o.cur[1], v.tag if v else None, 'num'))
            return o._replace(ops=(kind,))
        if e and e[0] == 'startxref':
            if kind != 'num':
                raise Bad('xref', 'startxref is not followed by a number')
            if v and v.tag != 'xref':
                raise Bad('xref', 'what follows startxref is not the place of the cross-reference table')
            return o._replace(nest=o.nest[:-1], ops=())
        if kind == 'num' and isinstance(o.ops, tuple) and len(o.ops) < 2:
            return o._replace(ops=o.ops + (v,))
        raise Bad('nesting', 'a %s outside any object' % kind)

    def settle(self, o, e):
        return o

    def done(self, o, what):
        e = o.nest[-1] if o.nest else None
        if e and e[0] == 'dict':
            return o._replace(nest=o.nest[:-1] + (('dict', 'k', e[2], None),))
        if e and e[0] in ('obj', 'trailer', 'arr'):
            return o._replace(ops=('dict',) if e[0] != 'arr' else o.ops)
        raise Bad('nesting', 'a %s outside any object' % what)

    def number(self, o, key, v):
        if key == '/Length':
            return o._replace(length='direct')
        if key == '/Size' and v and v.lin is not None and o.size is not None and v.lin != o.size:
            raise Bad('xref', '/Size is not the number of entries')
        if key == '/Count' and v and v.lin is not None and o.pages is not None and v.lin != o.pages:
            raise Bad('pages', '/Count is not the number of pages')
        return o

    def named(self, o, key, v):
        if key == '/Type' and len(o.nest) == 2 and o.nest[0][0] == 'obj' and o.cur:
            o = o._replace(cur=o.cur[:3] + (v,))
        if key == '/Type' and v == '/Page':
            ident = o.cur[0] if o.cur else None
            if o.pages is not None and ident is not None:
                if o.pagefirst is None and o.pages == L(0):
                    o = o._replace(pagefirst=ident)
                elif o.pagefirst is not None and o.pagestep is None and o.pages == L(1):
                    o = o._replace(pagestep=ident - o.pagefirst)
            o = o._replace(pages=o.pages + L(1) if o.pages is not None else None)
        return o

    def ref(self, o):
        e = o.nest[-1] if o.nest else None
        if e and e[0] == 'dict':
            if e[1] != 'n2':
                raise Bad('operands', 'R needs two numbers')
            lin = e[3]
            if e[2] == '/Length':
                o = o._replace(length=(lin,))
            if e[2] == '/Contents' and lin is not None and o.size is None:
                if o.xref is not None and lin != o.xref:
                    raise Bad('pages', '/Contents does not name the stream of the page')
            want = {'/Root': '/Catalog', '/Pages': '/Pages', '/Parent': '/Pages', '/Info': 'any'}.get(e[2])
            if want is None and len(o.nest) > 1 and o.nest[-2][0] == 'dict' and o.nest[-2][2] == '/Font':
                want = '/Font'
            if want and lin is not None and (lin, want) not in o.defs:
                if e[2] in ('/Root', '/Info'):
                    raise Bad('references', '%s does not name the object it should' % e[2])
                o = o._replace(promise=o.promise | {(want, lin)})
            return o._replace(nest=o.nest[:-1] + (('dict', 'k', e[2], None),))
        if e and e[0] == 'arr':
            if e[1] == '/Kids' and e[3] is not None and e[3][0] is not None and o.pagefirst is not None:
                lin, loop = e[3]
                if lin.i and loop:
                    start, count = loop
                    if start is not None:
                        first = L(lin.c) + Lin(start.c, start.t, 0).times(lin.i)
                        if first != o.pagefirst or o.pagestep is not None and o.pagestep.const and lin.i != o.pagestep.c:
                            raise Bad('pages', '/Kids does not name the pages')
                    if count is not None and o.pages is not None and count != o.pages:
                        raise Bad('pages', '/Kids does not name every page once')
            return o
        raise Bad('operands', 'R outside any object')

    def table(self, o, kind, v):
        e = o.nest[-1]
        if kind == 'word' and v == 'trailer':
            if e[3] != 0:
                raise Bad('xref', 'the cross-reference table ends within an entry')
            return o._replace(nest=o.nest[:-1] + (('trailer',),), size=e[2], ops=())
        st = e[3]
        if e[1] is None:
            if kind != 'num' or not v or v.lin != L(0):
                raise Bad('xref', 'the cross-reference table does not start at object 0')
            return o._replace(nest=o.nest[:-1] + (('xref', True, None, 0),))
        if e[1] is True:
            if kind != 'num':
                raise Bad('xref', 'the cross-reference table has no length')
            return o._replace(nest=o.nest[:-1] + (('xref', False, v.lin if v else None, 0),))
        if st == 0:
            if kind != 'num' or not v or v.width != 10 or v.fill != '0':
                raise Bad('xref', 'an offset in the cross-reference table is not ten digits')
            if o.loops and isinstance(v.tag, tuple) and v.tag[0] == 'off':
                start, count = o.loops[-1]
                ix = v.tag[1]
                if ix is not None and ix.i != 1 or ix is not None and start is not None and start + L(ix.c) + Lin(0, ix.t, 0) != L(1):
                    raise Bad('xref', 'the cross-reference table does not list the objects in order')
                if count is not None and e[2] is not None and count + L(1) != e[2]:
                    raise Bad('xref', 'the cross-reference table does not have as many entries as it says')
            return o._replace(nest=o.nest[:-1] + (e[:3] + (1,),))
        if st == 1:
            if kind != 'num' or not v or v.width != 5:
                raise Bad('xref', 'a generation in the cross-reference table is not five digits')
            return o._replace(nest=o.nest[:-1] + (e[:3] + (2,),))
        if kind != 'word' or v not in ('n', 'f'):
            raise Bad('xref', 'an entry of the cross-reference table is neither n nor f')
        return o._replace(nest=o.nest[:-1] + (e[:3] + (0,),))

    def content(self, o, top, kind, v):
        ops = o.ops
        if top == 'sarr':
            if kind == ']':
                return self.close(o, 'sarr', ']')._replace(ops=o.nest[-1][1] + ('arr',))
            if kind not in ('num', 'str'):
                raise Bad('operands', 'an array of text holds a %s' % kind)
            return o
        if kind == '[':
            return self.open(o, ('sarr', ops))._replace(ops=())
        if kind in ('num', 'str', 'name'):
            if len(ops) > 12:
                raise Bad('operands', 'operands pile up')
            return o._replace(ops=ops + (kind,))
        if kind != 'word':
            raise Bad('tokens', 'a %s in a stream' % kind)
        if '\x02' in v:
            return o._replace(ops=(), note=o.note | {'unknown'})
        if v == 'endstream':
            if ops:
                raise Bad('operands', 'a stream ends with operands left')
            o = self.close(o, 'stream', 'endstream')
            if o.lenmark != 'clean' and any(k == 'len' for k, i in o.promise):
                raise Bad('lengths', 'the length of a stream is not taken at its end')
            if o.path:
                raise Bad('paths', 'a stream ends with a path not painted')
            return o._replace(xref=o.cur[0], lenmark=None, ops=('stream',))
        if v not in PDFOPS:
            raise Bad('operators', '%s is no operator' % v)
        want, where = PDFOPS[v]
        if ops != want:
            raise Bad('operands', '%s is given (%s)' % (v, ' '.join(ops)))
        o = o._replace(ops=())
        if where == 'text' and top != 'BT':
            raise Bad('paths', '%s outside BT and ET' % v)
        if where in ('path', 'paint', 'gs') and top == 'BT':
            raise Bad('paths', '%s between BT and ET' % v)
        if o.path and where not in ('path', 'paint'):
            raise Bad('paths', '%s before the path is painted' % v)
        if where == 'path':
            if not o.path and v in ('c',):
                raise Bad('paths', '%s without a current point' % v)
            return o._replace(path=True)
        if where == 'paint':
            return o._replace(path=False)
        if v == 'q':
            return self.open(o, ('q', o.font))
        if v == 'Q':
            e = o.nest[-1]
            return self.close(o, 'q', 'Q')._replace(font=e[1])
        if v == 'BT':
            if top == 'BT':
                raise Bad('nesting', 'BT inside BT')
            return self.open(o, ('BT',))
        if v == 'ET':
            return self.close(o, 'BT', 'ET')
        if v == 'Tf':
            return o._replace(font=True)
        if v in ('Tj', 'TJ') and not o.font:
            raise Bad('paths', '%s before a font is chosen' % v)
        return o

    # -- ends ----------------------------------------------------------------
    def rest(self, o):
        """Between two calls nothing may be half written."""
        if o.mode != 'n':
            raise Bad('nesting', 'a string or a comment is left open')
        if o.word:
            raise Bad('tokens', 'the last word is not ended')
        if o.ops not in ((), 0, None):
            raise Bad('operands', 'operands are left over')
        if o.base != 10:
            raise Bad('numbers', 'the stream is left writing numbers in base %d' % o.base)
        if o.path:
            raise Bad('paths', 'a path is left not painted')

    def end(self, o):
        if not o.eof or not o.col0:
            raise Bad('framing', 'the document does not end with %%EOF on a line of its own')
        if o.nest:
            raise Bad('nesting', '%s is open at the end of the document' % o.nest[-1][0])
        if o.atend:
            raise Bad('comments', '%s is promised for the end and never given' % sorted(o.atend)[0])
        for k, i in o.promise:
            if k != 'len' and i is not None:
                raise Bad('references', 'an object is named as a %s that is never written' % k)
        if any(i is not None for k, i in o.promise):
            raise Bad('lengths', 'a stream names as its length an object that is never written')


N = 'num'
PDFOPS = {'m': ((N,) * 2, 'path'), 'l': ((N,) * 2, 'path'), 'c': ((N,) * 6, 'path'), 'v': ((N,) * 4, 'path'), 'y': ((N,) * 4, 'path'), 'h': ((), 'path'),
          're': ((N,) * 4, 'path'), 'w': ((N,), 'any'), 'J': ((N,), 'any'), 'j': ((N,), 'any'), 'M': ((N,), 'any'), 'rg': ((N,) * 3, 'any'), 'RG': ((N,) * 3, 'any'),
          'g': ((N,), 'any'), 'G': ((N,), 'any'), 'k': ((N,) * 4, 'any'), 'K': ((N,) * 4, 'any'),
          'S': ((), 'paint'), 's': ((), 'paint'), 'f': ((), 'paint'), 'F': ((), 'paint'), 'f*': ((), 'paint'), 'B': ((), 'paint'), 'B*': ((), 'paint'), 'b': ((), 'paint'),
          'b*': ((), 'paint'), 'n': ((), 'paint'), 'q': ((), 'gs'), 'Q': ((), 'gs'), 'cm': ((N,) * 6, 'gs'), 'BT': ((), 'bt'), 'ET': ((), 'text'),
          'Tf': (('name', N), 'any'), 'Tc': ((N,), 'any'), 'Tw': ((N,), 'any'), 'Tz': ((N,), 'any'), 'TL': ((N,), 'any'), 'Tr': ((N,), 'any'), 'Ts': ((N,), 'any'),
          'Td': ((N,) * 2, 'text'), 'TD': ((N,) * 2, 'text'), 'Tm': ((N,) * 6, 'text'), 'T*': ((), 'text'), 'Tj': (('str',), 'text'), 'TJ': (('arr',), 'text'),
          "'": (('str',), 'text')}

# operator: (operands it needs, change in their number)
OPS = {}
for _s, _a, _b in (
        ('dup', 1, 2), ('pop', 1, 0), ('exch', 2, 2), ('add', 2, 1), ('sub', 2, 1), ('mul', 2, 1), ('div', 2, 1), ('idiv', 2, 1), ('mod', 2, 1), ('neg', 1, 1), ('abs', 1, 1),
        ('ceiling', 1, 1), ('floor', 1, 1), ('round', 1, 1), ('truncate', 1, 1), ('sqrt', 1, 1), ('cvi', 1, 1), ('cvr', 1, 1), ('cvs', 2, 1), ('cvx', 1, 1), ('cvn', 1, 1),
        ('eq', 2, 1), ('ne', 2, 1), ('lt', 2, 1), ('le', 2, 1), ('gt', 2, 1), ('ge', 2, 1), ('and', 2, 1), ('or', 2, 1), ('not', 1, 1), ('true', 0, 1), ('false', 0, 1), ('null', 0, 1),
        ('moveto', 2, 0), ('lineto', 2, 0), ('rmoveto', 2, 0), ('rlineto', 2, 0), ('curveto', 6, 0), ('rcurveto', 6, 0), ('arc', 5, 0), ('arcn', 5, 0), ('closepath', 0, 0), ('newpath', 0, 0),
        ('stroke', 0, 0), ('fill', 0, 0), ('eofill', 0, 0), ('clip', 0, 0), ('rectfill', 4, 0), ('rectstroke', 4, 0), ('rectclip', 4, 0), ('show', 1, 0), ('ashow', 3, 0), ('stringwidth', 1, 2),
        ('charpath', 2, 0), ('pathbbox', 0, 4), ('currentpoint', 0, 2), ('findfont', 1, 1), ('scalefont', 2, 1), ('setfont', 1, 0), ('setlinewidth', 1, 0), ('setgray', 1, 0),
        ('setrgbcolor', 3, 0), ('setlinecap', 1, 0), ('setlinejoin', 1, 0), ('setdash', 2, 0), ('rotate', 1, 0), ('translate', 2, 0), ('scale', 2, 0), ('concat', 1, 0), ('showpage', 0, 0),
        ('def', 2, 0), ('bind', 1, 1), ('dict', 1, 1), ('begin', 1, 0), ('end', 0, 0), ('load', 1, 1), ('get', 2, 1), ('put', 3, 0), ('length', 1, 1), ('string', 1, 1), ('array', 1, 1),
        ('type', 1, 1), ('known', 2, 1), ('currentdict', 0, 1), ('getinterval', 3, 1), ('putinterval', 3, 0), ('setpagedevice', 1, 0), ('matrix', 0, 1), ('currentfont', 0, 1)):
    OPS[_s] = (_a, _b - _a)


def tokens(text):
    """PostScript text as nested lists: numbers, ('s',..) strings, ('/',name), words."""
    out, stack, i = [], [], 0
    cur = out
    while i < len(text):
        c = text[i]
        if c in WS:
            i += 1
        elif c == '%':
            while i < len(text) and text[i] != '\n':
                i += 1
        elif c == '(':
            d, j = 1, i + 1
            while j < len(text) and d:
                if text[j] == '\\':
                    j += 1
                elif text[j] == '(':
                    d += 1
                elif text[j] == ')':
                    d -= 1
                j += 1
            if d:
                raise Bad('prolog', 'a string in the prolog is not closed')
            cur.append(('s', text[i + 1:j - 1])); i = j
        elif c == '{':
            stack.append(cur); cur = []; i += 1
        elif c == '}':
            if not stack:
                raise Bad('prolog', 'a } in the prolog closes nothing')
            p = cur; cur = stack.pop(); cur.append(('{', p)); i += 1
        elif c in '[]':
            cur.append(c); i += 1
        elif c in ')<>':
            raise Bad('prolog', 'a %s in the prolog' % c)
        else:
            j = i + 1
            while j < len(text) and text[j] not in WS and text[j] not in DELIM:
                j += 1
            w = text[i:j]
            i = j
            if w.startswith('/'):
                cur.append(('/', w[1:]))
            elif re.fullmatch(r'[-+]?(\d+(\.\d*)?|\.\d+)', w):
                cur.append(('n', float(w)))
            else:
                cur.append(w)
    if stack:
        raise Bad('prolog', 'a { in the prolog is not closed')
    return out


class Unknown(Exception):
    pass


def effect(body, procs, names):
    """(operands needed, change, gsave change) of a procedure's body."""
    d = low = gs = 0
    prev = []
    for t in body:
        if isinstance(t, tuple):
            d += 1
            prev.append(t)
            continue
        lit = prev
        prev = []

        def use(need, net):
            nonlocal d, low
            low = min(low, d - need)
            d += net
        if t == 'roll':
            if len(lit) < 2 or lit[-1][0] != 'n' or lit[-2][0] != 'n':
                raise Unknown()
            use(2 + int(lit[-2][1]), -2)
        elif t == 'index':
            if not lit or lit[-1][0] != 'n':
                raise Unknown()
            use(2 + int(lit[-1][1]), 0)
        elif t == 'copy':
            if not lit or lit[-1][0] != 'n':
                raise Unknown()
            n = int(lit[-1][1])
            use(1 + n, n - 1)
        elif t in ('for', 'forall', 'repeat', 'if', 'ifelse', 'exec', 'loop'):
            ps = [x for x in lit if x[0] == '{']
            need = {'for': 4, 'forall': 2, 'repeat': 2, 'if': 2, 'ifelse': 3, 'exec': 1, 'loop': 1}[t]
            if t == 'ifelse' and (len(lit) < 2 or lit[-1][0] != '{' or lit[-2][0] != '{') or t != 'ifelse' and (not lit or lit[-1][0] != '{'):
                raise Unknown()
            use(need, -need)
            es = [effect(p[1], procs, names) for p in (lit[-2:] if t == 'ifelse' else lit[-1:])]
            given = 1 if t in ('for', 'forall') else 0
            for e in es:
                low = min(low, d + given - e[0])
                if e[2]:
                    raise Unknown()
            if t in ('for', 'forall', 'repeat', 'loop', 'if'):
                if es[0][1] + given != 0:
                    raise Bad('prolog', 'what a procedure in the prolog repeats leaves operands')
            elif t == 'ifelse':
                if es[0][1] != es[1][1]:
                    raise Unknown()
                d += es[0][1]
            else:
                d += es[0][1]
        elif t in ('gsave', 'grestore'):
            gs += 1 if t == 'gsave' else -1
        elif t in procs:
            if procs[t] is None:
                raise Unknown()
            use(procs[t][0], procs[t][1]); gs += procs[t][2]
        elif t in OPS:
            use(*OPS[t])
        elif t in ('[', ']'):
            raise Unknown()
        elif t in names:
            d += 1
        else:
            raise Bad('prolog', 'nothing defines %s, which the prolog uses' % t)
    return (-low, d, gs)


def prolog(text, names):
    """What a prolog defines, uses before definitions included."""
    procs = {}
    for _ in range(3):
        procs = onepass(text, names, procs)
    return procs


def onepass(text, names, before):
    """The procedures a prolog defines: name -> effect, None where unknown;
    values as (0, 1, 0)."""
    toks = tokens(text)
    procs = dict(before)
    allnames = set(names)
    todo = list(toks)
    while todo:
        t = todo.pop()
        if isinstance(t, tuple) and t[0] == '/':
            allnames.add(t[1])
        elif isinstance(t, tuple) and t[0] == '{':
            todo += t[1]
    depth = []
    for t in toks:
        if isinstance(t, tuple):
            depth.append(t)
            continue
        if t in ('def', 'BD') or t in procs and procs[t] == (2, -2, 0):
            if len(depth) >= 2 and depth[-2][0] == '/' and depth[-1][0] in ('{', 'n', 's', 'v'):
                name, b = depth[-2][1], depth[-1]
                if b[0] == '{':
                    try:
                        procs[name] = effect(b[1], {k: v for k, v in procs.items() if k != name}, allnames - {name})
                    except Unknown:
                        procs[name] = None
                    except Bad as e:
                        if str(e).startswith('nothing defines %s,' % name):
                            procs[name] = None
                        else:
                            raise
                else:
                    procs[name] = (0, 1, 0)
                del depth[-2:]
                continue
            if len(depth) >= 2:
                del depth[-2:]
                continue
            raise Bad('prolog', 'a definition in the prolog lacks its name or its value')
        if t == 'bind' and depth and depth[-1][0] == '{':
            continue
        try:
            e = effect(depth + [t], procs, allnames)
        except Unknown:
            e = None
        if e is None or e[0] > 0:
            raise Bad('prolog', '%s in the prolog lacks operands' % t)
        depth = [('v', None)] * e[1]
    if depth:
        raise Bad('prolog', 'the prolog leaves operands')
    return procs

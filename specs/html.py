"""Contracts for src/html_parser.cpp (C01 memory safety and termination,
C02 the event stream tiles the document)."""
import z3
from vcx.core import *

N = z3.Int('n')                       # length of the document
BUF = fn_buf('doc', N)
b = BUF.rd
INT_MAX = 2**31 - 1
nws = z3.Function('skip_ws', z3.IntSort(), z3.IntSort())      # first non-space position >= i
nend = z3.Function('name_end', z3.IntSort(), z3.IntSort())    # end of the name starting at i
cur = Loc(('ghost:cur',))            # first byte of the document not yet delivered
gscr = Loc(('ghost:script',))        # inside a script element
intag = Loc(('ghost:intag',))        # between a tag name and the end of that tag


def sp(c): return z3.Or(*[c == ord(x) for x in ' \t\r\n\f'])
def stop(c): return z3.Or(c == 0, sp(c), *[c == ord(x) for x in '/><='])
def alpha(c): return z3.Or(z3.And(c >= 97, c <= 122), z3.And(c >= 65, c <= 90))
def lower(c): return z3.If(z3.And(c >= 65, c <= 90), c + 32, c)
def isscript(t, l): return z3.And(l == 6, *[lower(b(t + k)) == ord('script'[k]) for k in range(6)])


def endscript(j):
    """</script ws* > at position j"""
    return z3.And(b(j) == ord('<'), b(j + 1) == ord('/'), nend(j + 2) == j + 8, isscript(j + 2, z3.IntVal(6)),
                  b(nws(j + 8)) == ord('>'))


def markup(j, scr):
    """a tag, comment or processing instruction starts at j"""
    return z3.If(scr, endscript(j),
                 z3.And(b(j) == ord('<'), z3.Or(b(j + 1) == ord('!'), b(j + 1) == ord('?'), alpha(b(j + 1)),
                                                z3.And(b(j + 1) == ord('/'), alpha(b(j + 2))))))


i, j = z3.Ints('i j')
AX = [
    N >= 0, N < INT_MAX - 16, b(N) == 0,
    z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N), b(i) != 0), patterns=[b(i)]),
    z3.ForAll([i], z3.And(b(i) >= -128, b(i) <= 127), patterns=[b(i)]),
    z3.ForAll([i], z3.Implies(z3.And(i >= 0, i <= N), z3.And(nws(i) >= i, nws(i) <= N, z3.Not(sp(b(nws(i)))))), patterns=[nws(i)]),
    z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i <= N, j >= i, j < nws(i)), sp(b(j))), patterns=[z3.MultiPattern(nws(i), b(j))]),
    z3.ForAll([i], z3.Implies(z3.And(i >= 0, i <= N), z3.And(nend(i) >= i, nend(i) <= N, stop(b(nend(i))))), patterns=[nend(i)]),
    z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i <= N, j >= i, j < nend(i)), z3.Not(stop(b(j)))), patterns=[z3.MultiPattern(nend(i), b(j))]),
]
AXTEXT = ['definition of skip_ws(i)/name_end(i): first position at or after i whose byte ends a run of blanks / a name',
          'document: NUL-terminated, first NUL at n, 0 <= n < 2^31-17 (int offsets)']


def nxt(p, c, tag):
    """p is the first byte not yet delivered; blanks inside a tag need no event"""
    return z3.Or(p == c, z3.And(tag, p == nws(c)))


def ptr(ex, st, name):
    o = z3.Int(name)
    return BufPtr(BUF, o)


def inb(p): return z3.And(p.off >= 0, p.off <= N)


class Scan(Contract):
    src = 'src/html_parser.cpp'

    is_method = False
    def byref(self, i): return self.is_method and i == 0

    def invariants(self, L):
        """templates; instantiated for every int / pointer variable in scope"""
        out = []
        cur_ = L.cur
        bases = [(lv, v) for lv, v in cur_.store.items() if isinstance(v, BufPtr) and v.buf is BUF]
        ints = [(lv, v) for lv, v in cur_.store.items() if z3.is_expr(v) and z3.is_int(v) and not str(lv[0]).startswith('ghost')]
        q = z3.Int('q')
        mods = {lv for n, lv in L.vars}
        classes = [('blanks', sp), ('name characters', lambda c: z3.Not(stop(c))), ('no NUL', lambda c: c != 0),
                   ('no "/><"', lambda c: z3.And(c != 0, *[c != ord(x) for x in '/><'])),
                   ('no blank or ">"', lambda c: z3.And(c != 0, z3.Not(sp(c)), c != ord('>'))),
                   ('no ">"', lambda c: z3.And(c != 0, c != ord('>'))),
                   ]
        def P(L, lv): return L.cur.store[lv].off
        for bl, bv in bases:
            for il, iv in ints:
                if il not in mods and bl not in mods: continue
                nm = '%s+%s' % (L.ex.lvname(bl), L.ex.lvname(il))
                out.append((nm + ' inside the document', lambda L, bl=bl, il=il: z3.And(P(L, bl) + L.cur.store[il] >= 0, P(L, bl) + L.cur.store[il] <= N)))
        # runs from a fixed start to a moving position
        def positions(L):
            r = []
            for bl, bv in bases:
                if bl in mods: r.append((L.ex.lvname(bl), lambda L, bl=bl: P(L, bl)))
                for il, iv in ints:
                    if il in mods and bl not in mods:
                        r.append(('%s+%s' % (L.ex.lvname(bl), L.ex.lvname(il)), lambda L, bl=bl, il=il: P(L, bl) + L.cur.store[il]))
            return r
        pos = positions(L)
        if len(mods) <= 2:
            for nm, f in pos:
                for cn, cf in classes:
                    out.append(('only %s up to %s' % (cn, nm), lambda L, f=f, cf=cf: z3.ForAll([q], z3.Implies(
                        z3.And(q >= f(LV(L, L.entry)), q < f(L)), cf(b(q))), patterns=[b(q)])))
                # quoted value: everything differs from the quote held in an int variable or cell
                for ql, qv in ints:
                    if ql in mods: continue
                    out.append(('no quote %s up to %s' % (L.ex.lvname(ql), nm), lambda L, f=f, ql=ql: z3.ForAll([q], z3.Implies(
                        z3.And(q >= f(LV(L, L.entry)), q < f(L)), z3.And(b(q) != 0, b(q) != L.cur.store[ql])), patterns=[b(q)])))
                # comment search: no "-->" before the position
                out.append(('no "-->" before ' + nm, lambda L, f=f: z3.ForAll([q], z3.Implies(
                    z3.And(q >= f(LV(L, L.entry)), q < f(L)), z3.Not(z3.And(b(q) == 45, b(q + 1) == 45, b(q + 2) == 62))), patterns=[b(q)])))
        # documents scanned by parse_str / tagAttrs: relation to the ghost cursor
        for nm, f in pos:
            out.append((nm + ' is first non-blank after the delivered part', lambda L, f=f: f(L) == nws(L.peek(cur))))
            out.append((nm + ' is not a blank', lambda L, f=f: z3.Not(sp(b(f(L))))))
        for bl, bv in bases:
            if bl in mods:
                out.append((L.ex.lvname(bl) + ' is the delivered position', lambda L, bl=bl: P(L, bl) == L.peek(cur)))
                out.append((L.ex.lvname(bl) + ' is at or after the delivered position', lambda L, bl=bl: P(L, bl) >= L.peek(cur)))
                out.append((L.ex.lvname(bl) + ' is where the next event starts', lambda L, bl=bl: nxt(P(L, bl), L.peek(cur), L.peek(intag))))
                out.append(('no markup between delivered part and ' + L.ex.lvname(bl), lambda L, bl=bl: z3.ForAll([q], z3.Implies(
                    z3.And(q >= L.peek(cur), q < P(L, bl)), z3.Not(markup(q, L.peek(gscr)))), patterns=[b(q)])))
                for bl2, _ in bases:
                    if bl2 in mods and bl2 != bl:
                        out.append(('%s <= %s' % (L.ex.lvname(bl), L.ex.lvname(bl2)), lambda L, bl=bl, bl2=bl2: P(L, bl) <= P(L, bl2)))
        if self.this_loc and cur_.store.get(gscr) is not None:
            nst = self.this_loc.sub('nest')
            out.append(('script state matches the events', lambda L: L.peek(gscr) == z3.Not(L.peek(nst))))
            out.append(('delivered part inside document', lambda L: z3.And(L.peek(cur) >= 0, L.peek(cur) <= N)))
            out.append(('inside a tag', lambda L: L.peek(intag)))
        return out

    this_loc = None


class LV:
    """entry-state view with the interface the position lambdas need"""
    def __init__(self, L, st): self.cur, self.entry, self.ex = st, st, L.ex


class SkipSpace(Scan):
    qname, nparams = 'skipSpace', 1
    def inputs(self, ex, st): return None, [ptr(ex, st, 'cp')]
    def requires(self, c): return [('pointer inside the document', inb(c.args[0]))]
    def result(self, c):
        return z3.Int(fresh_name('skipSpace'))
    def ensures(self, c):
        return [('returns the length of the run of blanks', c.args[0].off + c.ret == nws(c.args[0].off))]


class SkipName(Scan):
    qname, nparams = 'skipName', 1
    def inputs(self, ex, st): return None, [ptr(ex, st, 'cp')]
    def requires(self, c): return [('pointer inside the document', inb(c.args[0]))]
    def result(self, c): return z3.Int(fresh_name('skipName'))
    def ensures(self, c):
        return [('returns the length of the name', c.args[0].off + c.ret == nend(c.args[0].off))]


class IsAlpha(Scan):
    qname, nparams = 'isAlpha', 1
    def inputs(self, ex, st):
        v = ex.fresh(st, 'int', 'c'); return None, [v]
    def result(self, c): return z3.Int(fresh_name('isAlpha'))
    def ensures(self, c): return [('is a letter', (c.ret != 0) == alpha(c.args[0]))]


THIS = Loc(('this',))
Scan.this_loc = THIS


def attr_end(at, al, vnull, v, vl, q):
    """position after an attribute; q is the quote character or 0"""
    return z3.If(vnull, at + al, z3.If(q == 0, v + vl, z3.If(b(v + vl) == q, v + vl + 1, v + vl)))


def attr_ok(at, al, vnull, v, vl, q):
    """name, '=', quotes and value are exactly the bytes of the document"""
    e = nws(at + al)
    s0 = nws(e + 1)
    k = z3.Int('k')
    return z3.And(al > 0, at + al == nend(at),
                  vnull == (b(e) != ord('=')),
                  z3.Implies(z3.Not(vnull), z3.And(
                      vl >= 0, v + vl <= N,
                      z3.If(z3.Or(b(s0) == 34, b(s0) == 39),
                            z3.And(q == b(s0), v == s0 + 1, z3.Or(b(v + vl) == q, b(v + vl) == 0),
                                   z3.ForAll([k], z3.Implies(z3.And(k >= v, k < v + vl), b(k) != q), patterns=[b(k)])),
                            z3.And(q == 0, v == s0, z3.Or(b(v + vl) == 0, sp(b(v + vl)), b(v + vl) == 62),
                                   z3.ForAll([k], z3.Implies(z3.And(k >= v, k < v + vl), z3.Not(z3.Or(b(k) == 0, sp(b(k)), b(k) == 62))), patterns=[b(k)]))))))


class SkipAttribute(Scan):
    qname = 'metaproxy_1::HTMLParser::Rep::skipAttribute'
    nparams = 6
    is_method = True
    def inputs(self, ex, st):
        outs = []
        for nm, t in (('attr_len', 'int'), ('value', 'const char *'), ('val_len', 'int'), ('tr', 'int')):
            lv = Loc((nm + '#out',))
            st.store[lv] = UNDEF
            ex.loc_types = dict(ex.loc_types); ex.loc_types[lv] = t
            outs.append(LocPtr(lv))
        return THIS, [Loc(('event#',)), ptr(ex, st, 'cp'), outs[0], outs[1], outs[2], outs[3]]
    def requires(self, c): return [('pointer inside the document', inb(c.args[1]))]
    def modifies(self, c): return [a.lv for a in c.args[2:6]]
    def havoc(self, c, lv, t):
        if lv == c.args[3].lv: return BufPtr(BUF, z3.Int(fresh_name('value')), z3.Bool(fresh_name('value.null')))
        v = z3.Int(fresh_name(c.ex.lvname(lv)))
        return v
    def result(self, c):
        return z3.Int(fresh_name('skipAttribute'))
    def ensures(self, c):
        p = c.args[1].off
        al, val, vl, q = [c.new(a.lv) for a in c.args[2:6]]
        bad = [nm for nm, x in (('attr_len', al), ('val_len', vl), ('tr', q)) if isinstance(x, Undef)]
        if bad:
            return [('output %s is set on every path' % x, z3.BoolVal(False)) for x in bad]
        if isinstance(val, Null): vn, vo = z3.BoolVal(True), z3.IntVal(0)
        elif isinstance(val, BufPtr): vn, vo = val.null, val.off
        else: return [('output value is set on every path', z3.BoolVal(False))]
        end = attr_end(p, al, vn, vo, vl, q)
        return [('attribute name length', z3.And(al >= 0, p + al == nend(p))),
                ('an empty name consumes blanks only', z3.Implies(al == 0, p + c.ret == nws(p))),
                ('quote character in range', z3.And(q >= -128, q <= 127)),
                ('name, separator, quotes and value are the bytes of the document', z3.Implies(al > 0, attr_ok(p, al, vn, vo, vl, q))),
                ('consumes the attribute and the blanks after it', z3.Implies(al > 0, p + c.ret == nws(end))),
                ('result range', z3.And(c.ret >= 0, p + c.ret <= N))]


def ghost_inputs(ex, st):
    st.store[cur] = z3.Int('cur@0')
    st.store[gscr] = z3.Bool('script@0')
    st.store[intag] = z3.Bool('intag@0')
    ex.loc_types = dict(ex.loc_types)


class TagAttrs(Scan):
    qname = 'metaproxy_1::HTMLParser::Rep::tagAttrs'
    nparams = 4
    is_method = True
    def inputs(self, ex, st):
        ghost_inputs(ex, st)
        return THIS, [Loc(('event#',)), ptr(ex, st, 'name'), ex.fresh(st, 'int', 'len'), ptr(ex, st, 'cp')]
    def requires(self, c):
        return [('tag name inside the document', z3.And(inb(c.args[1]), c.args[2] >= 0, c.args[1].off + c.args[2] <= N)),
                ('starts where the events stopped', z3.And(inb(c.args[3]), c.args[3].off == c.old(cur), c.old(intag)))]
    def modifies(self, c): return [cur, intag]
    def havoc(self, c, lv, t):
        return z3.Int(fresh_name('cur')) if lv == cur else z3.Bool(fresh_name('intag'))
    def result(self, c): return z3.Int(fresh_name('tagAttrs'))
    def ensures(self, c):
        e = c.args[3].off + c.ret
        return [('stops at the first non-blank after the last attribute', e == nws(c.new(cur))),
                ('result range', z3.And(c.ret >= 0, e <= N, c.new(cur) >= c.old(cur), c.new(cur) <= N)),
                ('still inside the tag', c.new(intag))]


class TagEnd(Scan):
    qname = 'metaproxy_1::HTMLParser::Rep::tagEnd'
    nparams = 4
    is_method = True
    def inputs(self, ex, st):
        ghost_inputs(ex, st)
        return THIS, [Loc(('event#',)), ptr(ex, st, 'tag'), ex.fresh(st, 'int', 'tag_len'), ptr(ex, st, 'cp')]
    def requires(self, c):
        return [('tag name inside the document', z3.And(inb(c.args[1]), c.args[2] >= 0, c.args[1].off + c.args[2] <= N)),
                ('starts where the events stopped', z3.And(inb(c.args[3]), c.old(cur) >= 0, c.old(intag),
                                                           z3.Or(c.args[3].off == c.old(cur), c.args[3].off == nws(c.old(cur)))))]
    def modifies(self, c): return [cur, intag]
    def havoc(self, c, lv, t):
        return z3.Int(fresh_name('cur')) if lv == cur else z3.Bool(fresh_name('intag'))
    def result(self, c): return z3.Int(fresh_name('tagEnd'))
    def ensures(self, c):
        p = c.args[3].off
        e = p + c.ret
        return [('result range', z3.And(c.ret >= 0, e <= N)),
                ('everything consumed was delivered (blanks inside the tag aside)',
                 z3.Or(e == c.new(cur), z3.And(c.ret == 0, c.new(cur) == c.old(cur), c.new(intag))))]


class TagText(Scan):
    qname = 'metaproxy_1::HTMLParser::Rep::tagText'
    nparams = 3
    is_method = True
    def inputs(self, ex, st):
        ghost_inputs(ex, st)
        return THIS, [Loc(('event#',)), ptr(ex, st, 'text_start'), ptr(ex, st, 'text_end')]
    def requires(self, c):
        q = z3.Int('q')
        s, e = c.args[1].off, c.args[2].off
        return [('range inside the document', z3.And(s >= 0, s <= e, e <= N)),
                ('starts where the events stopped', nxt(s, c.old(cur), c.old(intag))),
                ('contains no markup', z3.ForAll([q], z3.Implies(z3.And(q >= s, q < e), z3.Not(markup(q, c.old(gscr)))), patterns=[b(q)]))]
    def modifies(self, c): return [cur]
    def havoc(self, c, lv, t):
        return z3.Int(fresh_name('cur'))
    def ensures(self, c):
        return [('delivers exactly the text', z3.If(c.args[1].off == c.args[2].off, c.new(cur) == c.old(cur), c.new(cur) == c.args[2].off))]


class ParseStr(Scan):
    qname = 'metaproxy_1::HTMLParser::Rep::parse_str'
    nparams = 2
    is_method = True
    def inputs(self, ex, st):
        st.store[cur] = z3.IntVal(0)
        st.store[gscr] = z3.BoolVal(False)
        st.store[intag] = z3.BoolVal(False)
        return THIS, [Loc(('event#',)), BufPtr(BUF, z3.IntVal(0))]
    def requires(self, c): return []
    def ensures(self, c):
        return [('the whole document has been delivered', nxt(N, c.new(cur), c.new(intag)))]


def install(ex):
    ex.axioms = list(AX)
    ex.heap_types = {}
    M = ex.methods
    q = z3.Int('q')

    def g(s, lv): return s.store[lv]

    def put(s, **kw):
        for lv, v in ((cur, kw.get('cur')), (gscr, kw.get('scr')), (intag, kw.get('tag'))):
            if v is not None: ex.wr(s, lv, v)

    def at(s):
        """where the next event may start: blanks inside a tag are not delivered"""
        return z3.If(g(s, intag), nws(g(s, cur)), g(s, cur))

    def span(ex, s, p, l, n, what):
        if not isinstance(p, BufPtr):
            ex.require(s, z3.BoolVal(False), what + ' points into the document', n); return None
        ex.require(s, z3.And(z3.Not(p.null), p.off >= 0, l >= 0, p.off + l <= N), what + ' lies inside the document', n)
        return p.off

    def text(ex, s, ob, a, n):
        p = span(ex, s, a[0], a[1], n, 'text event')
        if p is None: return [(s, None)]
        ex.require(s, z3.And(a[1] > 0, z3.Or(p == g(s, cur), p == at(s))), 'event(text) continues where the previous event ended', n, 'pre')
        ex.require(s, z3.ForAll([q], z3.Implies(z3.And(q >= p, q < p + a[1]), z3.Not(markup(q, g(s, gscr)))), patterns=[b(q)]),
                   'event(text) contains no markup', n, 'pre')
        put(s, cur=p + a[1])
        return [(s, None)]

    def start(ex, s, ob, a, n):
        p = span(ex, s, a[0], a[1], n, 'tag name')
        if p is None: return [(s, None)]
        l = a[1]
        ex.require(s, z3.And(p == at(s) + 1, b(at(s)) == ord('<')), 'event(open tag) continues where the previous event ended', n, 'pre')
        ex.require(s, z3.Not(g(s, gscr)), 'event(open tag) only outside script', n, 'pre')
        comment = z3.And(b(p) == ord('!'), b(p + 1) == 45, b(p + 2) == 45)
        k = z3.Int('k')
        ex.require(s, z3.And(
            l >= 1,
            z3.Implies(alpha(b(p)), p + l == nend(p)),
            z3.Implies(z3.Or(z3.And(b(p) == ord('!'), z3.Not(comment)), b(p) == ord('?')), z3.And(
                z3.Or(b(p + l) == 62, b(p + l) == 0),
                z3.ForAll([k], z3.Implies(z3.And(k >= p, k < p + l), b(k) != 62), patterns=[b(k)]))),
            z3.Implies(comment, z3.Or(
                b(p + l) == 0,
                z3.And(l >= 5, b(p + l) == 62, b(p + l - 1) == 45, b(p + l - 2) == 45))),
            z3.Implies(comment, z3.ForAll([k], z3.Implies(z3.And(k >= p + 3, k < p + l - 2), z3.Not(z3.And(b(k) == 45, b(k + 1) == 45, b(k + 2) == 62))), patterns=[b(k)])),
            z3.Or(alpha(b(p)), b(p) == ord('!'), b(p) == ord('?'))), 'event(open tag) names the whole tag name, declaration or comment', n, 'pre')
        put(s, cur=p + l, tag=z3.BoolVal(True), scr=z3.And(alpha(b(p)), isscript(p, l)))
        return [(s, None)]

    def close(ex, s, ob, a, n):
        p = span(ex, s, a[0], a[1], n, 'closing tag name')
        if p is None: return [(s, None)]
        ex.require(s, z3.And(p == at(s) + 2, b(at(s)) == ord('<'), b(at(s) + 1) == ord('/')), 'event(close tag) continues where the previous event ended', n, 'pre')
        ex.require(s, z3.And(alpha(b(p)), p + a[1] == nend(p)), 'event(close tag) names the whole tag name', n, 'pre')
        ex.require(s, z3.Implies(g(s, gscr), endscript(p - 2)), 'event(close tag) inside script only for </script>', n, 'pre')
        put(s, cur=p + a[1], tag=z3.BoolVal(True), scr=z3.BoolVal(False))
        return [(s, None)]

    def tagend(ex, s, ob, a, n):
        p = span(ex, s, a[0], a[1], n, 'tag name')
        if p is None: return [(s, None)]
        e = at(s)
        cl = a[2] != 0
        # directly after text inside the tag no blanks are skipped
        ok = lambda e: z3.If(cl, z3.And(b(e) == ord('/'), b(e + 1) == 62), b(e) == 62)
        ex.require(s, z3.And(g(s, intag), z3.Or(ok(e), ok(g(s, cur)))), 'event(tag end) is at ">" or "/>" where the previous event ended', n, 'pre')
        e2 = z3.If(ok(e), e, g(s, cur))
        put(s, cur=z3.If(cl, e2 + 2, e2 + 1), tag=z3.BoolVal(False))
        return [(s, None)]

    def attribute(ex, s, ob, a, n):
        t = span(ex, s, a[0], a[1], n, 'tag name')
        p = span(ex, s, a[2], a[3], n, 'attribute name')
        if t is None or p is None: return [(s, None)]
        v, vl, sep = a[4], a[5], a[6]
        sv = None
        if isinstance(sep, LocPtr):
            q0 = ex.rd(s, sep.lv.sub(0), n)
            q1 = ex.rd(s, sep.lv.sub(1), n)
            if isinstance(q0, Undef) or isinstance(q1, Undef) : return [(s, None)]
            ex.require(s, z3.Or(q0 == 0, q1 == 0), 'separator string is NUL terminated', n)
        elif isinstance(sep, BufPtr):
            q0 = ex.rd(s, BLoc(sep.buf, sep.off), n)
        else:
            raise Unsupported('separator %r' % (sep,), n, ex)
        if isinstance(vl, Undef): return [(s, None)]
        if isinstance(v, Null): vn, vo = z3.BoolVal(True), z3.IntVal(0)
        elif isinstance(v, BufPtr):
            vn, vo = v.null, v.off
            ex.require(s, z3.Or(vn, z3.And(vo >= 0, vl >= 0, vo + vl <= N)), 'attribute value lies inside the document', n)
        else: raise Unsupported('value %r' % (v,), n, ex)
        ex.require(s, z3.And(g(s, intag), p == at(s)), 'event(attribute) continues where the previous event ended', n, 'pre')
        ex.require(s, attr_ok(p, a[3], vn, vo, vl, z3.If(vn, 0, q0)), 'event(attribute) has the name, value and quote of the document', n, 'pre')
        put(s, cur=attr_end(p, a[3], vn, vo, vl, q0))
        return [(s, None)]

    M[('HTMLParserEvent', 'text')] = text
    M[('HTMLParserEvent', 'openTagStart')] = start
    M[('HTMLParserEvent', 'closeTag')] = close
    M[('HTMLParserEvent', 'anyTagEnd')] = tagend
    M[('HTMLParserEvent', 'attribute')] = attribute

    def strncase(ex, s, this, a, n):
        p, l, k = a
        if isinstance(p, BufPtr) and isinstance(l, BufPtr) and hasattr(l.buf, 'lit'):
            lit = l.buf.lit.decode()
            r = z3.Int(fresh_name('strncasecmp'))
            s.assume((r == 0) == z3.And(*[z3.Or(k <= i, lower(p.buf.rd(p.off + i)) == ord(lit[i].lower())) for i in range(len(lit))],
                                        z3.Or(k <= len(lit), p.buf.rd(p.off + len(lit)) == 0)))
            return [(s, r)]
        return [(s, z3.Int(fresh_name('strncasecmp')))]
    ex.externs['yaz_strncasecmp'] = strncase
    ex.externs['yaz_strcasecmp'] = lambda ex, s, this, a, n: [(s, z3.Int(fresh_name('strcasecmp')))]


CONTRACTS = [IsAlpha(), SkipSpace(), SkipName(), SkipAttribute(), TagAttrs(), TagEnd(), TagText(), ParseStr()]
UNITS = [('src/html_parser.cpp', CONTRACTS, install)]

"""Assumed contracts of the C/C++ standard library, and the translation of the
standard containers to SMT sequences, strings and arrays.  Everything in this
file is trusted; each use is reported in the evidence."""
import z3
from .core import *
from . import core

S = z3.StringVal
NPOS = 2**64 - 1
# character of a string at a position; a name for str.at that quantifiers can be triggered on
CHR = z3.Function('chr', z3.StringSort(), z3.IntSort(), z3.IntSort())


def chr_axiom():
    x, k = z3.Const('x!c', z3.StringSort()), z3.Int('k!c')
    return z3.ForAll([x, k], z3.Implies(z3.And(k >= 0, k < z3.Length(x)), CHR(x, k) == str_buf(x).rd(k)), patterns=[CHR(x, k)])


CHS = z3.Function('chs', z3.IntSort(), z3.StringSort())


def install(ex):
    def unit(s, c):
        if not ex.abstract_chars or z3.is_int_value(simp(c)): return z3.StrFromCode(tocode(c))
        s.assume(z3.Length(CHS(c)) == 1)
        return CHS(c)

    E, M = ex.externs, ex.methods

    def fn(*names):
        def d(f):
            for n in names: E[n] = f
            return f
        return d

    def me(k, *names):
        def d(f):
            for n in names: M[(k, n)] = f
            return f
        return d

    rd = lambda s, v, n=None: ex.rd(s, v, n) if is_lv(v) else v

    def sval(s, v, n):
        """string content of an argument (std::string or char pointer)"""
        v = ex.rd(s, v, n, 'std::string') if is_lv(v) else v
        if isinstance(v, (BufPtr, SymPtr)):
            nn = z3.Not(v.null) if isinstance(v, BufPtr) else v.term != 0
            if not z3.is_true(simp(nn)):
                ex.require(s, nn, 'string built from a non-null pointer', n)
        if isinstance(v, Null):
            ex.require(s, z3.BoolVal(False), 'string built from a non-null pointer', n)
            return S('')
        if isinstance(v, LocPtr) and isinstance(v.lv, Loc) and z3.is_expr(s.store.get(v.lv)) and z3.is_string(s.store[v.lv]):
            return s.store[v.lv]      # C string a library call left in a local array
        if isinstance(v, BufPtr) and hasattr(v.buf, 'term'):
            ex.require(s, z3.And(v.off >= 0, v.off <= v.buf.n), 'C string pointer inside its buffer', n)
        return ex.to_string(v)

    ex.sval = sval

    # ---- libc string functions
    @fn('strlen')
    def _(ex, s, this, a, n):
        if isinstance(a[0], BufPtr):
            return [(s, a[0].buf.n - a[0].off)]
        return [(s, z3.Length(sval(s, a[0], n)))]

    @fn('strchr')
    def _(ex, s, this, a, n):
        p, c = a
        if isinstance(p, BufPtr) and hasattr(p.buf, 'lit') and z3.is_int_value(simp(p.off)):
            b = p.buf.lit[simp(p.off).as_long():]
            hit = z3.Or(c == 0, *[c == (x if x < 128 else x - 256) for x in set(b)])
            o = z3.Int(fresh_name('strchr'))
            return [(s, BufPtr(p.buf, o, simp(z3.Not(hit))))]
        p = as_buf(s, p, n)
        o = z3.Int(fresh_name('strchr'))
        nul = z3.Bool(fresh_name('strchr.null'))
        j = z3.Int('j!c')
        s.assume(z3.Implies(z3.Not(nul), z3.And(o >= p.off, o <= p.buf.n, p.buf.rd(o) == c)),
                 z3.Implies(z3.Not(nul), z3.ForAll([j], z3.Implies(z3.And(j >= p.off, j < o), p.buf.rd(j) != c))),
                 z3.Implies(nul, z3.And(c != 0, z3.ForAll([j], z3.Implies(z3.And(j >= p.off, j <= p.buf.n), p.buf.rd(j) != c)))))
        return [(s, BufPtr(p.buf, o, nul))]

    def as_buf(s, p, n):
        if isinstance(p, SymPtr):
            ex.require(s, p.term != 0, 'no null dereference', n)
            return BufPtr(ex.heap_str(p), z3.IntVal(0))
        if isinstance(p, BufPtr) and not z3.is_false(p.null):
            ex.require(s, z3.Not(p.null), 'no null dereference', n)
        return p
    ex.as_buf = as_buf

    @fn('strcmp')
    def _(ex, s, this, a, n):
        x, y = sval(s, a[0], n), sval(s, a[1], n)
        r = z3.Int(fresh_name('strcmp'))
        s.assume((r == 0) == (x == y), r >= -2**31, r < 2**31)
        return [(s, r)]

    @fn('strncmp')
    def _(ex, s, this, a, n):
        x, y, l = sval(s, a[0], n), sval(s, a[1], n), rd(s, a[2], n)
        if not z3.is_int(l): raise Unsupported('strncmp length', n, ex)
        r = z3.Int(fresh_name('strncmp'))
        s.assume((r == 0) == (z3.SubString(x, 0, l) == z3.SubString(y, 0, l)), r >= -2**31, r < 2**31)
        return [(s, r)]

    @fn('xmlStrcmp')
    def _(ex, s, this, a, n):
        # libxml2: null allowed; two nulls are equal
        def nul(v): return isinstance(v, Null) or False
        def parts(v):
            if isinstance(v, Null): return z3.BoolVal(True), S('')
            if isinstance(v, SymPtr): return v.term == 0, ex.cstr(v)
            return v.null, ex.to_string(v)
        (xn, x), (yn, y) = parts(rd(s, a[0])), parts(rd(s, a[1]))
        r = z3.Int(fresh_name('xmlStrcmp'))
        s.assume((r == 0) == z3.Or(z3.And(xn, yn), z3.And(z3.Not(xn), z3.Not(yn), x == y)), r >= -2**31, r < 2**31)
        return [(s, r)]

    @fn('atoi')
    def _(ex, s, this, a, n):
        x = sval(s, a[0], n)
        f = z3.Function('atoi', z3.StringSort(), z3.IntSort())
        r = f(x)
        s.assume(r >= -2**31, r < 2**31)
        return [(s, r)]

    @fn('printf', 'fprintf', 'yaz_log', 'puts', 'fflush')
    def _(ex, s, this, a, n):
        ex.dropped.add('diagnostic output (printf, yaz_log)')
        return [(s, z3.Int(fresh_name('printf')))]

    @fn('__assert_fail')
    def _(ex, s, this, a, n):
        ex.require(s, z3.BoolVal(False), 'assertion in the code holds', n)
        s.flow = ('dead',)
        return [(s, None)]

    # ---- std::string
    st_ = lambda s, v, n: sval(s, v, n)

    @me('string', 'ctor')
    def _(ex, s, t, a, n):
        a = [x for x in a if not (isinstance(x, Opaque) and x.tag == 'defaultarg')]
        if not a: return [(s, S(''))]
        if len(a) == 1: return [(s, st_(s, a[0], n))]
        if len(a) == 2:
            p, l = rd(s, a[0]), rd(s, a[1])
            if isinstance(p, BufPtr):
                ex.require(s, z3.And(p.off >= 0, l >= 0, p.off + l <= p.buf.n + 1), 'string built from a range inside the buffer', n)
                return [(s, ex.buf_range(p, l))]
            if isinstance(p, SymPtr):
                ex.require(s, z3.And(p.term != 0), 'string built from a non-null pointer', n)
                return [(s, ex.mem_range(s, p, l))]
        raise Unsupported('std::string constructor', n, ex)

    def buf_range(p, l):
        if hasattr(p.buf, 'term'):
            return z3.SubString(p.buf.term, p.off, l)
        if hasattr(p.buf, 'seqterm'):
            return z3.SubString(p.buf.seqterm, p.off, l)
        raise Unsupported('string from raw buffer')
    ex.buf_range = buf_range

    def mem_range(s, p, l):
        return z3.Function('membytes', z3.IntSort(), z3.IntSort(), z3.StringSort())(p.term, l)
    ex.mem_range = mem_range

    @me('string', 'length', 'size')
    def _(ex, s, o, a, n):
        x = z3.Length(st_(s, o, n))
        s.assume(x < 2**62)
        return [(s, x)]

    @me('string', 'empty')
    def _(ex, s, o, a, n): return [(s, z3.Length(st_(s, o, n)) == 0)]

    @me('string', 'clear')
    def _(ex, s, o, a, n): ex.wr(s, o, S(''), n); return [(s, None)]

    @me('string', 'c_str', 'data')
    def _(ex, s, o, a, n):
        t = st_(s, o, n)
        b = str_buf(t)
        b.name = 'c_str:%s' % t
        b.cstr_of = t
        return [(s, BufPtr(b, z3.IntVal(0)))]

    @me('string', 'operator=', 'assign')
    def _(ex, s, o, a, n):
        v = rd(s, a[0])
        if z3.is_expr(v) and z3.is_int(v) and len(a) == 1: v = unit(s, v)
        elif len(a) == 2:
            p, l = v, rd(s, a[1])
            if isinstance(p, SymPtr): p = ex.as_buf(s, p, n)
            if not isinstance(p, BufPtr) or not z3.is_int(l): raise Unsupported('assign(str,len)', n, ex)
            ex.require(s, z3.And(p.off >= 0, l >= 0, p.off + l <= p.buf.n + 1), 'assigned range inside the buffer', n)
            v = ex.buf_range(p, l)
        elif len(a) > 2: raise Unsupported('assign/3', n, ex)
        else: v = st_(s, a[0], n)
        ex.wr(s, o, v, n)
        return [(s, o)]

    @me('string', 'operator+=', 'append', 'push_back')
    def _(ex, s, o, a, n):
        v = rd(s, a[0])
        if z3.is_expr(v) and z3.is_int(v) and ex.char_append and len(a) == 1:
            x, k, ns = st_(s, o, n), z3.Int('k!a'), z3.Const(fresh_name('str'), z3.StringSort())
            s.assume(z3.Length(ns) == z3.Length(x) + 1, z3.ForAll([k], CHR(ns, k) == z3.If(k == z3.Length(x), v, CHR(x, k)), patterns=[CHR(ns, k)]))
            ex.wr(s, o, ns, n)
            return [(s, o)]
        if z3.is_expr(v) and z3.is_int(v): v = unit(s, v)
        elif len(a) == 2:
            p, l = v, rd(s, a[1])
            if isinstance(p, BufPtr):
                ex.require(s, z3.And(p.off >= 0, l >= 0, p.off + l <= p.buf.n + 1), 'append range inside the buffer', n)
                v = ex.buf_range(p, l)
            elif isinstance(p, SymPtr): v = ex.mem_range(s, p, l)
            else: raise Unsupported('append(str,len)', n, ex)
        elif len(a) > 2: raise Unsupported('append/3', n, ex)
        else: v = st_(s, a[0], n)
        ex.wr(s, o, z3.Concat(st_(s, o, n), v), n)
        return [(s, o)]

    @me('string', 'operator[]', 'at')
    def _(ex, s, o, a, n):
        i = rd(s, a[0])
        if is_lv(o): return [(s, StrElem(o, i))]
        if ex.abstract_chars: raise Unsupported('index of a temporary string', n, ex)
        return [(s, str_buf(o).rd(i))]

    def concat(ex, s, x, a, n):
        def one(v):
            v = rd(s, v)
            if z3.is_expr(v) and z3.is_int(v): return unit(s, v)
            return st_(s, v, n)
        return [(s, z3.Concat(one(x), one(a[0])))]
    M[('string', 'operator+')] = concat
    M[('*', 'string', 'operator+')] = concat

    def seq(ex, s, x, a, n): return [(s, st_(s, x, n) == st_(s, a[0], n))]
    def sne(ex, s, x, a, n): return [(s, st_(s, x, n) != st_(s, a[0], n))]
    M[('string', 'operator==')] = seq; M[('*', 'string', 'operator==')] = seq
    M[('string', 'operator!=')] = sne; M[('*', 'string', 'operator!=')] = sne

    @me('string', 'compare')
    def _(ex, s, o, a, n):
        x = st_(s, o, n)
        if len(a) == 1:
            y = st_(s, a[0], n)
        elif len(a) == 3:
            p, l = rd(s, a[0]), rd(s, a[1])
            ex.require(s, z3.And(p >= 0, p <= z3.Length(x)), 'compare position in range (else std::out_of_range)', n)
            x = z3.SubString(x, p, z3.If(l < z3.Length(x) - p, l, z3.Length(x) - p))
            y = st_(s, a[2], n)
        else: raise Unsupported('string::compare', n, ex)
        r = z3.Int(fresh_name('compare'))
        s.assume((r == 0) == (x == y))
        return [(s, r)]

    def find_res(s, x, y, start):
        i = z3.IndexOf(x, y, start)
        return z3.If(z3.And(start <= z3.Length(x), i >= 0), i, z3.IntVal(NPOS))

    @me('string', 'find')
    def _(ex, s, o, a, n):
        x = st_(s, o, n)
        a = [v for v in a if not (isinstance(v, Opaque))]
        y = rd(s, a[0])
        if z3.is_expr(y) and z3.is_int(y):
            y = z3.StrFromCode(tocode(y))
        else: y = st_(s, y, n)
        p = rd(s, a[1]) if len(a) > 1 else z3.IntVal(0)
        s.assume(z3.Length(x) < 2**62)
        r = z3.Int(fresh_name('find'))
        s.assume(r == find_res(s, x, y, p))
        return [(s, r)]

    @me('string', 'rfind')
    def _(ex, s, o, a, n):
        x = st_(s, o, n)
        a = [v for v in a if not (isinstance(v, Opaque))]
        y = rd(s, a[0])
        ch = None
        if z3.is_expr(y) and z3.is_int(y): ch = y; y = z3.StrFromCode(tocode(y))
        else: y = st_(s, y, n)
        L = z3.Length(x)
        s.assume(L < 2**62)
        lim = rd(s, a[1]) if len(a) > 1 else z3.IntVal(NPOS)
        r = z3.Int(fresh_name('rfind'))
        # greatest r <= min(lim, L-|y|) with x[r..] starting with y
        top = z3.If(lim < L - z3.Length(y), lim, L - z3.Length(y))
        if z3.is_string_value(simp(y)) and len(simp(y).as_string()) == 1 or ch is not None:
            c = ch if ch is not None else z3.IntVal(ord(simp(y).as_string()))
            j = z3.Int('j!r')
            s.assume(z3.Or(z3.And(r == NPOS, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j <= top), CHR(x, j) != c), patterns=[CHR(x, j)])),
                           z3.And(r >= 0, r <= top, CHR(x, r) == c,
                                  z3.ForAll([j], z3.Implies(z3.And(j > r, j <= top), CHR(x, j) != c), patterns=[CHR(x, j)]))))
        else:
            pre = z3.SubString(x, 0, top + z3.Length(y))
            s.assume(z3.If(z3.And(top >= 0, z3.Contains(pre, y)),
                       z3.And(r >= 0, r <= top, z3.SubString(x, r, z3.Length(y)) == y,
                              z3.Not(z3.Contains(z3.SubString(pre, r + 1, z3.Length(pre) - r - 1), y))),
                       r == NPOS))
        return [(s, r)]

    def ffo(neg):
        def f(ex, s, o, a, n):
            x = st_(s, o, n)
            a = [v for v in a if not (isinstance(v, Opaque))]
            y = rd(s, a[0])
            p = rd(s, a[1]) if len(a) > 1 else z3.IntVal(0)
            L = z3.Length(x)
            s.assume(L < 2**62)
            if z3.is_expr(y) and z3.is_int(y): isin = lambda c: c == y
            elif isinstance(y, BufPtr) and hasattr(y.buf, 'lit') and z3.is_int_value(simp(y.off)):
                bs = [b if b < 128 else b - 256 for b in set(y.buf.lit[simp(y.off).as_long():])]
                isin = lambda c: z3.Or(*[c == b for b in bs])
            else: raise Unsupported('find_first_of with symbolic set', n, ex)
            hit = (lambda c: z3.Not(isin(c))) if neg else isin
            r = z3.Int(fresh_name('find_first_of'))
            j = z3.Int('j!f')
            at = (lambda i: CHR(x, i)) if ex.abstract_chars else (lambda i: str_buf(x).rd(i))
            pats = dict(patterns=[CHR(x, j)]) if ex.abstract_chars else {}
            s.assume(z3.Or(z3.And(r == NPOS, z3.ForAll([j], z3.Implies(z3.And(j >= p, j < L), z3.Not(hit(at(j)))), **pats)),
                           z3.And(r >= p, r >= 0, r < L, hit(at(r)),
                                  z3.ForAll([j], z3.Implies(z3.And(j >= p, j < r), z3.Not(hit(at(j)))), **pats))))
            if not neg and z3.is_expr(y) and z3.is_int(y) and z3.is_int_value(simp(p)) and simp(p).as_long() == 0:
                s.assume((r == NPOS) == z3.Not(z3.Contains(x, z3.StrFromCode(tocode(y)))))
            # ground instance that the solver needs most often
            s.assume(z3.Implies(z3.And(p < L, hit(at(p))), r == p))
            return [(s, r)]
        return f
    M[('string', 'find_first_of')] = ffo(False)
    M[('string', 'find_first_not_of')] = ffo(True)

    @me('string', 'substr')
    def _(ex, s, o, a, n):
        x = st_(s, o, n)
        a = [v for v in a if not (isinstance(v, Opaque))]
        p = rd(s, a[0]) if a else z3.IntVal(0)
        L = z3.Length(x)
        ex.require(s, z3.And(p >= 0, p <= L), 'substr position in range (else std::out_of_range)', n)
        if len(a) > 1:
            l = rd(s, a[1])
            l = z3.If(l < L - p, l, L - p)
        else: l = L - p
        return [(s, z3.SubString(x, p, l))]

    @me('string', 'erase')
    def _(ex, s, o, a, n):
        x = st_(s, o, n)
        p = rd(s, a[0]) if a else z3.IntVal(0)
        L = z3.Length(x)
        ex.require(s, z3.And(p >= 0, p <= L), 'erase position in range', n)
        l = rd(s, a[1]) if len(a) > 1 and not isinstance(a[1], Opaque) else L - p
        l = z3.If(l < L - p, l, L - p)
        ex.wr(s, o, z3.Concat(z3.SubString(x, 0, p), z3.SubString(x, p + l, L - p - l)), n)
        return [(s, o)]

    # ---- smart pointers
    def smart_get(ex, s, o, a, n):
        v = ex.rd(s, o, n) if is_lv(o) else o
        return [(s, v)]
    M[('smart', 'get')] = smart_get

    @me('smart', 'operator->')
    def _(ex, s, o, a, n):
        v = ex.rd(s, o, n, None) if is_lv(o) else o
        return [(s, v)]

    @me('smart', 'operator*')
    def _(ex, s, o, a, n):
        v = ex.rd(s, o, n, None) if is_lv(o) else o
        return [(s, ex.deref(s, v, n))]

    @me('smart', 'ctor')
    def _(ex, s, t, a, n):
        if not a: return [(s, NULL)]
        v = rd(s, a[0], n)
        return [(s, v)]

    @me('smart', 'operator=')
    def _(ex, s, o, a, n):
        ex.wr(s, o, rd(s, a[0], n), n, 'x *'); return [(s, o)]

    @me('smart', 'reset')
    def _(ex, s, o, a, n):
        ex.wr(s, o, rd(s, a[0], n) if a else NULL, n); return [(s, None)]

    @me('smart', 'get')
    def _(ex, s, o, a, n): return [(s, rd(s, o, n))]

    @me('smart', 'operator!')
    def _(ex, s, o, a, n):
        return [(s, z3.Not(ex.truth(s, rd(s, o, n), n)))]

    @me('list', 'reserve')
    def _(ex, s, o, a, n): return [(s, None)]

    @me('smart', 'operator bool')
    def _(ex, s, o, a, n):
        return [(s, ex.truth(s, rd(s, o, n), n))]

    # ---- std::list / std::vector
    def lst(s, o, n):
        v = ex.rd(s, o, n) if is_lv(o) else o
        if not isinstance(v, ListVal): raise Unsupported('list expected, got %r' % (v,), n, ex)
        return v

    @me('list', 'ctor')
    def _(ex, s, t, a, n):
        et = targs(strip(t))[0]
        if not a: return [(s, ListVal(z3.Empty(z3.SeqSort(ex.sort(et))), et))]
        if len(a) == 1 and (is_lv(a[0]) or isinstance(a[0], ListVal)):
            v = lst(s, a[0], n)
            return [(s, ListVal(v.seq, v.et))]
        raise Unsupported('container constructor', n, ex)

    @me('list', 'push_back')
    def _(ex, s, o, a, n):
        l = lst(s, o, n)
        v = a[0]
        v = ex.elem_in(s, v, l.et, n)
        ex.wr(s, o, ListVal(z3.Concat(l.seq, z3.Unit(v)), l.et), n)
        return [(s, None)]

    def elem_in(s, v, et, n):
        """store a C++ value as container element"""
        k = kind(et)
        v = ex.rd(s, v, n, et) if is_lv(v) else v
        if k == 'string': return st_(s, v, n)
        il = ex.inline_records.get(shortrec(et)) if k == 'record' else None
        if il:
            if isinstance(v, Opaque) and v.tag == 'default': return ex.to_term(s, ex.default_of(il[1]))
            sv = v if isinstance(v, StructVal) else ex.snapshot(s, v.lv if isinstance(v, LocPtr) else v, et)
            return ex.to_term(s, sv.fields[(il[0],)])
        if k == 'record' and not ex.is_enum(et):
            if isinstance(v, SymPtr): return v.term
            o = ex.new_object(s, et)
            if is_lv(v): v = ex.snapshot(s, v, et)
            if isinstance(v, LocPtr) and v.idx == 'ctor': v = ex.snapshot(s, v.lv, et)
            if isinstance(v, StructVal):
                for p, x in v.fields.items():
                    lv = HLoc(strip(et), o.term, tuple(p))
                    rec = ex.record(et)
                    ft = dict(ex.fields(rec)).get(p[0]) if rec is not None and len(p) == 1 else None
                    if ft: ex.heap_types.setdefault(lv.key(), ft)
                    ex.wr(s, lv, x, n, ft)
            return o.term
        r = ex.to_term(s, v)
        if ex.elem_inv:
            f = ex.elem_inv(et, r)
            if f is not None: ex.require(s, f, 'element put into a container is valid', n)
        return r
    ex.elem_in = elem_in

    @me('list', 'size')
    def _(ex, s, o, a, n):
        l = z3.Length(lst(s, o, n).seq)
        s.assume(l < 2**60)
        return [(s, l)]

    @me('list', 'empty')
    def _(ex, s, o, a, n): return [(s, z3.Length(lst(s, o, n).seq) == 0)]

    @me('list', 'clear')
    def _(ex, s, o, a, n):
        l = lst(s, o, n)
        ex.wr(s, o, ListVal(z3.Empty(l.seq.sort()), l.et), n); return [(s, None)]

    @me('list', 'operator=')
    def _(ex, s, o, a, n):
        l = lst(s, a[0], n)
        ex.wr(s, o, ListVal(l.seq, l.et), n); return [(s, o)]

    @me('list', 'begin', 'cbegin')
    def _(ex, s, o, a, n):
        lst(s, o, n)
        return [(s, IterVal(o, z3.IntVal(0)))]

    @me('list', 'end', 'cend')
    def _(ex, s, o, a, n): return [(s, IterVal(o, z3.Length(lst(s, o, n).seq)))]

    @me('list', 'front')
    def _(ex, s, o, a, n):
        return [(s, ListElem(o, z3.IntVal(0)))]

    @me('list', 'back')
    def _(ex, s, o, a, n):
        return [(s, ListElem(o, z3.Length(lst(s, o, n).seq) - 1))]

    @me('list', 'pop_front')
    def _(ex, s, o, a, n):
        l = lst(s, o, n)
        L = z3.Length(l.seq)
        ex.require(s, L > 0, 'pop_front on a non-empty container', n)
        ex.wr(s, o, ListVal(z3.SubSeq(l.seq, 1, L - 1), l.et), n); return [(s, None)]

    @me('list', 'erase')
    def _(ex, s, o, a, n):
        it = rd(s, a[0], n)
        if len(a) != 1 or not isinstance(it, IterVal): raise Unsupported('erase of a range', n, ex)
        l = lst(s, o, n)
        L, i = z3.Length(l.seq), it.idx
        ex.require(s, z3.And(z3.BoolVal(it.lv == o), i >= 0, i < L), 'erase of a valid iterator', n)
        r = z3.Concat(z3.SubSeq(l.seq, 0, i), z3.SubSeq(l.seq, i + 1, L - i - 1))
        lemma = getattr(ex, 'erase_lemma', None)            # what a specification has proved about erasing
        if lemma:
            q = z3.Const(fresh_name('erased'), r.sort())
            s.assume(q == r, z3.Length(q) == L - 1, *lemma(l.seq, i, q))
            r = q
        ex.wr(s, o, ListVal(r, l.et), n)
        vec = 'vector' in strip(ex.loc_types.get(o) or '') or 'deque' in strip(ex.loc_types.get(o) or '')
        for k, v in list(s.store.items()):          # iterators into the container: the erased one is dead, later ones move up
            if isinstance(v, IterVal) and v.lv == o:
                s.store[k] = IterVal(o, simp(z3.If(v.idx == i, -1, z3.If(v.idx > i, z3.IntVal(-1) if vec else v.idx - 1, v.idx))))
                s.writes = s.writes | {k}
        return [(s, IterVal(o, i))]

    @me('list', 'operator[]')
    def _(ex, s, o, a, n): return [(s, ListElem(o, rd(s, a[0], n)))]

    @me('iter', 'ctor')
    def _(ex, s, t, a, n):
        if not a: return [(s, UNDEF)]
        return [(s, rd(s, a[0], n))]

    def same_container(s, p, q, n):
        if p.lv != q.lv:
            ok = p.lv.term == q.lv.term if isinstance(p.lv, HLoc) and isinstance(q.lv, HLoc) and p.lv.key() == q.lv.key() else z3.BoolVal(False)
            ex.require(s, ok, 'iterators of the same container are compared', n)

    def iteq(neg):
        def f(ex, s, x, a, n):
            p, q = rd(s, x, n), rd(s, a[0], n)
            if isinstance(p, Undef) or isinstance(q, Undef):
                return [(s, z3.Bool(fresh_name('itereq')))]
            if isinstance(p, MapIter): return mapeq(s, p, q, neg, n)
            same_container(s, p, q, n)
            e = p.idx == q.idx
            return [(s, simp(z3.Not(e) if neg else e))]
        return f
    for k in ('iter', 'mapiter'):
        M[(k, 'operator==')] = iteq(False)
        M[(k, 'operator!=')] = iteq(True)

    def itinc(ex, s, o, a, n):
        v = rd(s, o, n)
        if isinstance(v, MapIter): return mapinc(s, o, v, a, n)
        nv = ex.add(s, v, z3.IntVal(1), '', n)
        ex.wr(s, o, nv, n)
        return [(s, v if a else o)]
    M[('iter', 'operator++')] = itinc
    M[('mapiter', 'operator++')] = itinc

    @me('iter', 'operator--')
    def _(ex, s, o, a, n):
        v = rd(s, o, n)
        nv = ex.add(s, v, z3.IntVal(-1), '', n)
        ex.wr(s, o, nv, n)
        return [(s, v if a else o)]

    @me('iter', 'operator*')
    def _(ex, s, o, a, n):
        v = rd(s, o, n)
        return [(s, ListElem(v.lv, v.idx))]

    @me('iter', 'operator->')
    def _(ex, s, o, a, n):
        v = rd(s, o, n)
        l = lst(s, v.lv, n)
        el = ex.rd(s, ListElem(v.lv, v.idx), n)
        if kind(l.et) in ('string', 'smart', 'ptr', 'int'): return [(s, LocPtr(ListElem(v.lv, v.idx)))]
        return [(s, el)]

    @me('iter', 'operator=')
    def _(ex, s, o, a, n):
        ex.wr(s, o, rd(s, a[0], n), n); return [(s, o)]

    @me('mapiter', 'operator=')
    def _(ex, s, o, a, n):
        ex.wr(s, o, rd(s, a[0], n), n); return [(s, o)]

    @me('mapiter', 'ctor')
    def _(ex, s, t, a, n):
        if not a: return [(s, UNDEF)]
        return [(s, rd(s, a[0], n))]

    # ---- std::map
    def mp(s, o, n, t=None):
        v = ex.rd(s, o, n, t) if is_lv(o) else o
        if not isinstance(v, MapVal): raise Unsupported('map expected, got %r' % (v,), n, ex)
        return v

    def key(s, v, m, n):
        v = rd(s, v, n)
        if kind(m.kt) == 'string': return st_(s, v, n)
        h = ex.externs.get('#mapkey')
        if h: 
            r = h(ex, s, v, m, n)
            if r is not None: return r
        return ex.to_term(s, v)
    ex.map_key = key

    @me('map', 'find')
    def _(ex, s, o, a, n):
        m = mp(s, o, n)
        k = key(s, a[0], m, n)
        return [(s, MapIter(o, k, simp(z3.Not(m.dom[k]))))]

    @me('map', 'count')
    def _(ex, s, o, a, n):
        m = mp(s, o, n)
        k = key(s, a[0], m, n)
        return [(s, z3.If(m.dom[k], z3.IntVal(1), z3.IntVal(0)))]

    @me('map', 'end', 'cend')
    def _(ex, s, o, a, n):
        m = mp(s, o, n)
        return [(s, MapIter(o, z3.Const('nokey', ex.sort(m.kt)), z3.BoolVal(True)))]

    def mapeq(s, p, q, neg, n):
        same_container(s, p, q, n)
        e = z3.Or(z3.And(p.end, q.end), z3.And(z3.Not(p.end), z3.Not(q.end), p.key == q.key))
        return [(s, simp(z3.Not(e) if neg else e))]

    @me('map', 'begin', 'cbegin')
    def _(ex, s, o, a, n):
        m = mp(s, o, n)
        d = m.dom
        i, k = z3.Int('i!m'), z3.Const('k!m', d.sort().domain())
        at, nk = keyat(d), nkeys(d)
        ix = z3.Function('key_index', d.sort(), d.sort().domain(), z3.IntSort())
        s.assume(nk(d) >= 0, nk(d) < 2**60,
                 z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nk(d)), z3.And(d[at(d, i)], ix(d, at(d, i)) == i)), patterns=[at(d, i)]),
                 z3.ForAll([k], z3.Implies(d[k], z3.And(ix(d, k) >= 0, ix(d, k) < nk(d), at(d, ix(d, k)) == k)), patterns=[ix(d, k)]))
        return [(s, MapIter.nth(o, d, z3.IntVal(0)))]

    def mapinc(s, o, v, a, n):
        if v.idx is not None:
            ex.require(s, z3.Not(v.end), 'map iterator is not advanced past the end', n)
            ex.require(s, v.dom == mp(s, v.lv, n).dom, 'map is not changed while it is walked', n)
            nv = MapIter.nth(v.lv, v.dom, simp(v.idx + 1))
            ex.wr(s, o, nv, n)
            return [(s, v if a else o)]
        h = ex.externs.get('#mapinc')
        if not h: raise Unsupported('iteration over a map', n, ex)
        return h(ex, s, o, v, a, n)

    @me('mapiter', 'operator->', 'operator*')
    def _(ex, s, o, a, n):
        v = rd(s, o, n)
        ex.require(s, z3.Not(v.end), 'map iterator dereference is not end()', n)
        m = mp(s, v.lv, n)
        return [(s, MapPair(v.key, MapElem(v.lv, v.key)))]

    @me('map', 'operator[]')
    def _(ex, s, o, a, n):
        m = mp(s, o, n)
        k = key(s, a[0], m, n)
        h = ex.externs.get('#mapdefault')
        dv = m.val
        k0 = kind(m.vt)
        if k0 in ('ptr', 'smart', 'int'): d = z3.IntVal(0)
        elif k0 == 'bool': d = z3.BoolVal(False)
        elif k0 == 'string': d = S('')
        elif k0 == 'list': d = z3.Empty(ex.sort(m.vt))
        elif k0 == 'record' and shortrec(m.vt) in ex.inline_records: d = z3.Empty(ex.sort(m.vt))
        else:
            o2 = ex.new_object(s, m.vt)
            d = o2.term
        nv = z3.Store(m.val, k, z3.If(m.dom[k], m.val[k], d))
        ex.wr(s, o, MapVal(z3.Store(m.dom, k, z3.BoolVal(True)), nv, m.kt, m.vt), n)
        return [(s, MapElem(o, k))]

    @me('map', 'erase')
    def _(ex, s, o, a, n):
        m = mp(s, o, n)
        v = rd(s, a[0], n)
        if isinstance(v, MapIter):
            ex.require(s, z3.Not(v.end), 'erase of a valid map iterator', n)
            ex.wr(s, o, MapVal(z3.Store(m.dom, v.key, z3.BoolVal(False)), m.val, m.kt, m.vt), n)
            return [(s, Opaque('iter'))]
        k = key(s, v, m, n)
        r = z3.If(m.dom[k], z3.IntVal(1), z3.IntVal(0))
        ex.wr(s, o, MapVal(z3.Store(m.dom, k, z3.BoolVal(False)), m.val, m.kt, m.vt), n)
        return [(s, r)]

    @me('map', 'insert')
    def _(ex, s, o, a, n):
        m = mp(s, o, n)
        p = rd(s, a[0], n)
        if not isinstance(p, MapPair): raise Unsupported('map::insert of %r' % (p,), n, ex)
        k = key(s, p.first, m, n)
        v = rd(s, p.second, n)
        had = m.dom[k]
        nv = z3.Store(m.val, k, z3.If(had, m.val[k], ex.elem_in(s, v, m.vt, n)))
        ex.wr(s, o, MapVal(z3.Store(m.dom, k, z3.BoolVal(True)), nv, m.kt, m.vt), n)
        return [(s, MapPair(MapIter(o, k, z3.BoolVal(False)), simp(z3.Not(had))))]

    @me('map', 'size')
    def _(ex, s, o, a, n):
        m = mp(s, o, n)
        f = z3.Function('mapsize', m.dom.sort(), z3.IntSort())
        s.assume(f(m.dom) >= 0, f(m.dom) < 2**60)
        return [(s, f(m.dom))]

    @me('map', 'clear')
    def _(ex, s, o, a, n):
        m = mp(s, o, n)
        ex.wr(s, o, MapVal(z3.K(ex.sort(m.kt), z3.BoolVal(False)), m.val, m.kt, m.vt), n)
        return [(s, None)]

    @me('map', 'ctor')
    def _(ex, s, t, a, n):
        if not a: return [(s, Opaque('default'))]
        v = mp(s, a[0], n)
        return [(s, v)]

    @me('pair', 'ctor')
    def _(ex, s, t, a, n):
        if len(a) == 1: return [(s, rd(s, a[0], n))]
        return [(s, MapPair(rd(s, a[0], n), rd(s, a[1], n)))]

    @fn('make_pair')
    def _(ex, s, this, a, n): return [(s, MapPair(rd(s, a[0], n), rd(s, a[1], n)))]

    @me('map', 'at')
    def _(ex, s, o, a, n):
        m = mp(s, o, n)
        k = key(s, a[0], m, n)
        ex.require(s, m.dom[k], 'map::at of an existing key', n)
        return [(s, MapElem(o, k))]

    @me('list', 'emplace_back')
    def _(ex, s, o, a, n): return M[('list', 'push_back')](ex, s, o, a, n)

    def smeq(neg):
        def f(ex, s, x, a, n):
            p, q = rd(s, x, n), rd(s, a[0], n)
            e = ex.to_term(s, p) == ex.to_term(s, q)
            return [(s, z3.Not(e) if neg else e)]
        return f
    for nm, neg in (('operator==', False), ('operator!=', True)):
        M[('smart', nm)] = smeq(neg); M[('*', 'smart', nm)] = smeq(neg)

    # ---- streams: output text is not part of any contract
    def ostr(ex, s, o, a, n):
        ex.dropped.add('text written to output streams')
        return [(s, o)]
    M[('*', 'operator<<')] = ostr

"""Contracts for src/filter_present_chunk.cpp: a present request answered in pieces.

Ghost: RECV, the records received so far for this request (at most as many as
asked for), LAST, what the last answer of the backend was."""
import z3
from vcx.core import *
from . import pkg
from .pkg import *
from .zutil import arr, sz, t, INT
from . import zutil

SEQI = z3.SeqSort(I)
IM = 'metaproxy_1::filter::PresentChunk::Impl::'
TAKE = z3.Function('first_records', I, I, SEQI)      # copies of the first m records of an array
URT = z3.Function('unfold_first_records', I, Bo)
CL = z3.Function('copy_of_record', I, I)
RECV, LAST, LEN, ARR, LRES = [Loc((x + '#',)) for x in ('records received', 'last answer', 'length of last answer', 'records of last answer', 'last response')]
CHUNKED = Loc(('chunked#',))
THIS = Loc(('this',))
CHUNK = THIS.sub('chunk_number')
RKEY = ('Z_NamePlusRecord *', '')
ASSUME = pkg.ASSUME + zutil.ASSUME + ['yaz_clone_z_NamePlusRecord makes a copy that depends on the record alone', 'fewer than 2^31 records are asked for in one request or returned by the backend']


def H0(ex): return z3.Const('H.%s.' % shortrec(RKEY[0]), z3.ArraySort(I, I))


def axioms(ex):
    p, m = z3.Ints('p!t m!t')
    ex.heap_types.setdefault(RKEY, 'Z_NamePlusRecord *')
    h = ex.heap_arr(State(), RKEY) if False else z3.Const('H.%s.%s' % (shortrec(RKEY[0]), ''), z3.ArraySort(I, ex.sort('Z_NamePlusRecord *')))
    return elem_axioms() + [z3.ForAll([m], URT(m), patterns=[URT(m)]), z3.ForAll([p, m], z3.Implies(m <= 0, TAKE(p, m) == z3.Empty(SEQI)), patterns=[TAKE(p, m)]),
                            z3.ForAll([p, m], z3.Implies(m > 0, TAKE(p, m) == z3.Concat(TAKE(p, m - 1), z3.Unit(CL(h[ELEM(p, m - 1)])))), patterns=[z3.MultiPattern(TAKE(p, m), URT(m))]),
                            z3.ForAll([p, m], z3.Length(TAKE(p, m)) == z3.If(m < 0, 0, m), patterns=[TAKE(p, m)])]


class C(Contract):
    standalone = True
    def byref(self, i): return True


def num(ex, st, p): return arr(ex, st, 'long long', '', INT)[p]


class ChunkIt(C):
    qname, nparams, is_method = IM + 'chunk_it', 2, True
    def inputs(self, ex, st):
        ex.axioms = list(ex.axioms) + axioms(ex)
        pkg.package(ex, st, PKG, 'package')
        T = ex.loc_types
        T[CHUNK] = INT; st.store[CHUNK] = ex.fresh(st, INT, 'chunk')
        st.store[RECV] = z3.Empty(SEQI); T[RECV] = 'std::vector<int>'
        for l in (LAST, LEN, ARR, LRES): st.store[l] = z3.IntVal(0); T[l] = 'int'
        a = sz(st, 'apdu', 'Z_APDU', True)
        A = lambda f, ty: arr(ex, st, 'Z_PresentRequest', f, ty)
        pr = arr(ex, st, 'Z_APDU', 'u.presentRequest', 'Z_PresentRequest *')[a.term]
        n, s0 = A('numberOfRecordsRequested', INT + ' *')[pr], A('resultSetStartPoint', INT + ' *')[pr]
        st.assume(arr(ex, st, 'Z_APDU', 'which')[a.term] == zutil.KINDS['presentRequest'], st.store[CHUNK] > 0, pr > 0, n > 0, s0 > 0, n != s0, n < st.alloc, s0 < st.alloc)
        self.n, self.s0, self.pr, self.apdu = n, s0, pr, a.term
        self.total, self.start = num(ex, st, n), num(ex, st, s0)
        st.assume(self.total < 2**31, self.start >= -2**62, self.start < 2**62)
        self.cells = {k: ex.heap_arr(st, k) for k in list(ex.heap_types) if False}
        ex.on_move = self.moved
        return THIS, [PKG, a]
    def moved(self, ex, s, P, a, n):
        if P == PKG:
            return pkg.passed_on(ex, s, P, a, n)
        w = View(ex, s, P.sub(GREQ)); g = w.root()
        got = z3.Length(s.store[RECV])
        left = self.total - got
        chunk = s.store[CHUNK]
        val = lambda p: w('long long', '', p, INT)
        ap = w('Z_GDU', 'u.z3950', g, 'Z_APDU *')
        q = w('Z_APDU', 'u.presentRequest', ap, 'Z_PresentRequest *')
        cell = lambda f: w('Z_PresentRequest', f, q, INT + ' *')
        ex.require(s, z3.And(w('Z_GDU', 'which', g) == 1, ap == self.apdu, w('Z_APDU', 'which', ap) == zutil.KINDS['presentRequest']), 'the backend is sent the present request', n)
        ex.require(s, val(cell('resultSetStartPoint')) == self.start + got, 'the next part starts after the records received', n)
        ex.require(s, val(cell('numberOfRecordsRequested')) == z3.If(left > chunk, chunk, left), 'the next part has the size of a chunk, or of what is left', n)
        ex.require(s, left > 0, 'nothing is asked for when all records are there', n)
        for k, h in s.heap.items():
            if k == ('long long', '') or k in (('Z_GDU', 'which'), ('Z_GDU', 'u.z3950')): continue
            if k[0].startswith('Z_'):
                z = z3.Const('H.%s.%s' % (shortrec(k[0]), k[1]), h.sort())
                if not h.eq(z) and k[0] in ('Z_APDU', 'Z_PresentRequest'):
                    ex.require(s, z3.And(h[self.apdu] == z[self.apdu], h[self.pr] == z[self.pr]), 'the rest of the request is sent unchanged', n)
        old = s.store
        same = lambda f: z3.And(old[P.sub(f)] == old[PKG.sub(f)])
        ex.require(s, z3.And(old[P.sub(ORIG)] == old[PKG.sub(ORIG)], old[P.sub(ROUTE)] == old[PKG.sub(ROUTE)], old[P.sub('m_session').sub('m_id')] == old[PKG.sub('m_session').sub('m_id')]),
                   'parts go the way of the package, for its session and origin', n)
        # the backend answers
        cl = P.sub('m_session').sub('m_close')
        ex.wr(s, cl, z3.Or(ex.rd(s, cl, n), z3.Bool(fresh_name('closed by backend'))), n)
        response_of(ex, s, P, z3.Int(fresh_name('source')))
        r = gptr(s, P.sub(GRES))
        A = lambda rec, f, p, ty='int': arr(ex, s, rec, f, ty)[p]
        ra = A('Z_GDU', 'u.z3950', r, 'Z_APDU *')
        pres = A('Z_APDU', 'u.presentResponse', ra, 'Z_PresentResponse *')
        recs = A('Z_PresentResponse', 'records', pres, 'Z_Records *')
        ok = z3.And(r != 0, A('Z_GDU', 'which', r) == 1, A('Z_APDU', 'which', ra) == zutil.KINDS['presentResponse'], recs != 0, A('Z_Records', 'which', recs) == 1)
        l = A('Z_Records', 'u.databaseOrSurDiagnostics', recs, 'Z_NamePlusRecordList *')
        m, p = A('Z_NamePlusRecordList', 'num_records', l), A('Z_NamePlusRecordList', 'records', l, 'Z_NamePlusRecord **')
        s.assume(z3.Implies(ok, z3.And(l > 0, m >= 0, m < 2**31, z3.Implies(m > 0, p > 0), BYTES(p) == 8 * m)))
        good = z3.And(ok, z3.Not(ex.rd(s, cl, n)))
        take = z3.If(m < left, m, left)
        s.assume(URT(take))
        ex.wr(s, LAST, z3.If(ex.rd(s, cl, n), z3.IntVal(1), z3.If(ok, z3.IntVal(3), z3.IntVal(2))), n)
        ex.wr(s, LEN, z3.If(good, m, 0), n); ex.wr(s, ARR, p, n); ex.wr(s, LRES, r, n)
        ex.wr(s, RECV, z3.Concat(s.store[RECV], TAKE(p, z3.If(good, take, 0))), n)
        return [(s, None)]
    def ensures(self, c):
        ex = c.ex
        cl = PKG.sub('m_session').sub('m_close')
        last, q = c.new(LAST), c.new(RECV)
        k = z3.Length(q)
        w = View(ex, c.post, PKG.sub(GRES)); g = w.root()
        a = w('Z_GDU', 'u.z3950', g, 'Z_APDU *'); r = w('Z_APDU', 'u.presentResponse', a, 'Z_PresentResponse *')
        rc = w('Z_PresentResponse', 'records', r, 'Z_Records *'); l = w('Z_Records', 'u.databaseOrSurDiagnostics', rc, 'Z_NamePlusRecordList *')
        b = w('Z_NamePlusRecordList', 'records', l, 'Z_NamePlusRecord **')
        j = z3.Int('j!p')
        built = z3.Or(last == 0, last == 3)
        return [('the session is closed if the backend closed it', z3.Implies(last == 1, c.new(cl))),
                ('the session is left open otherwise', z3.Implies(last != 1, c.new(cl) == c.old(cl))),
                ('an answer that is not a list of records is passed on', z3.Implies(last == 2, g == c.new(LRES))),
                ('stops only when all records are there or the backend has no more', z3.Implies(built, z3.Or(k >= self.total, z3.And(last == 3, c.new(LEN) == 0)))),
                ('the response is a present response for the request', z3.Implies(built, z3.And(g > 0, w('Z_GDU', 'which', g) == 1, a > 0, w('Z_APDU', 'which', a) == zutil.KINDS['presentResponse'], NEWFOR(a) == self.apdu))),
                ('its number of records is the number received', z3.Implies(built, z3.And(num_of(w, r) == k, w('Z_NamePlusRecordList', 'num_records', l) == k))),
                ('its records are those received, in order', z3.Implies(built, z3.And(rc > 0, w('Z_Records', 'which', rc) == 1, l > 0, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k),
                    w('Z_NamePlusRecord *', '', ELEM(b, j), 'Z_NamePlusRecord *') == q[j]), patterns=[ELEM(b, j)])))),
                ('never more records than asked for', k <= z3.If(self.total > 0, self.total, 0)),
                ('the package itself is not moved on', c.new(PKG.sub('#moves')) == 0)]
    def invariants(self, L):
        out = []
        V = L._vals()
        pk = lambda L, lv: L.peek(lv)
        ints = [(n, lv) for n, lv, v in V if z3.is_expr(v) and z3.is_int(v)]
        lists = [(n, lv, v) for n, lv, v in L.all_vals() if isinstance(v, ListVal)]
        out.append(('no more records than asked for', lambda L: z3.Length(pk(L, RECV)) <= z3.If(self.total > 0, self.total, 0)))
        out.append(('the last answer was a list of records', lambda L: z3.Or(pk(L, LAST) == 0, pk(L, LAST) == 3)))
        out.append(('the session was not closed', lambda L: pk(L, PKG.sub('m_session').sub('m_close')) == L.pre.store[PKG.sub('m_session').sub('m_close')]))
        for cell, nm in ((self.n, 'number'), (self.s0, 'start')): pass
        for n, lv in ints:
            out.append(('%s is the number of records received' % n, lambda L, lv=lv: pk(L, lv) == z3.Length(pk(L, RECV))))
            for n2, lv2, v in lists:
                out.append(('%s is the length of %s' % (n, n2), lambda L, lv=lv, lv2=lv2: pk(L, lv) == z3.Length(pk(L, lv2).seq)))
                out.append(('%s has the first %s records of the answer' % (n2, n), lambda L, lv=lv, lv2=lv2: z3.And(URT(pk(L, lv)), URT(pk(L, lv) + 1), pk(L, lv2).seq == z3.Concat(L.peek0(lv2).seq, TAKE(pk(L, ARR), pk(L, lv))))))
                for nm, p, v3 in L.all_vals():
                    if isinstance(v3, SymPtr) and 'Z_NamePlusRecordList' in v3.ctype:
                        out.append(('the first %s records of %s are given to %s' % (n, n2, nm), lambda L, lv=lv, lv2=lv2, p=p: self.given(L, p, lv, lv2)))
            for n2, lv2 in ints:
                if lv is not lv2:
                    out.append(('%s advances with %s' % (n, n2), lambda L, lv=lv, lv2=lv2: pk(L, lv) == L.peek0(lv) + pk(L, lv2) - L.peek0(lv2)))
            out.append(('%s is at most the number of records received' % n, lambda L, lv=lv: pk(L, lv) <= z3.Length(pk(L, RECV))))
            out.append(('%s is at most the length of the answer' % n, lambda L, lv=lv: pk(L, lv) <= pk(L, LEN)))
            out.append(('%s is at most what is taken of the answer' % n, lambda L, lv=lv: pk(L, lv) <= self.total))
        for n2, lv2, v in lists:
            out.append(('%s has the records received' % n2, lambda L, lv2=lv2: pk(L, lv2).seq == pk(L, RECV)))
        return out
    def given(self, L, p, lv, lv2):
        ex, st = L.ex, L.cur
        b = arr(ex, st, 'Z_NamePlusRecordList', 'records', 'Z_NamePlusRecord **')[L.peek(p).term]
        j = z3.Int('j!g')
        return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < L.peek(lv)), arr(ex, st, 'Z_NamePlusRecord *', '', 'Z_NamePlusRecord *')[ELEM(b, j)] == L.peek(lv2).seq[j]), patterns=[ELEM(b, j)])


def num_of(w, r): return w('long long', '', w('Z_PresentResponse', 'numberOfRecordsReturned', r, INT + ' *'), INT)


def install(ex):
    zutil.install(ex)
    hf = ex.heap_fact
    def clone(ex, s, this, a, n):
        return [(s, SymPtr(CL(a[0].term), 'Z_NamePlusRecord'))]
    ex.externs['yaz_clone_z_NamePlusRecord'] = clone
    def create(ex, s, o, a, n):
        p, = [ex.new_object(s, 'Z_APDU')]
        r = ex.new_object(s, 'Z_PresentResponse'); k = ex.new_object(s, INT)
        s.assume(NEWFOR(p.term) == a[1].term)
        if not z3.is_int_value(simp(a[0])) or simp(a[0]).as_long() != zutil.KINDS['presentResponse']: raise Unsupported('APDU of another kind', n, ex)
        ex.wr(s, HLoc('Z_APDU', p.term, ('which',)), a[0], n, 'int')
        ex.wr(s, HLoc('Z_APDU', p.term, ('u', 'presentResponse')), r, n, 'Z_PresentResponse *')
        ex.wr(s, HLoc('Z_PresentResponse', r.term, ('numberOfRecordsReturned',)), k, n, INT + ' *')
        return [(s, p)]
    ex.methods[('odr', 'create_APDU')] = create
    ex.methods[('odr', 'ctor')] = lambda ex, s, t, vs, n: [(s, StructVal('metaproxy_1::odr', {('m_odr',): ex.new_object(s, 'void')}))]
    ex.methods[('odr', 'operator odr *')] = lambda ex, s, o, a, n: [(s, ex.rd(s, o.sub('m_odr'), n))]


class ChunkItC(Contract):
    """chunk_it as its callers use it"""
    qname, nparams, is_method = IM + 'chunk_it', 2, True
    assumed = True
    def byref(self, i): return True
    def requires(self, c):
        a = c.args[1].term
        return [('only a present request of the package is answered in pieces', z3.And(a > 0, arr(c.ex, c.pre, 'Z_APDU', 'which')[a] == zutil.KINDS['presentRequest'],
                 a == arr(c.ex, c.pre, 'Z_GDU', 'u.z3950', 'Z_APDU *')[gptr(c.pre, PKG.sub(GREQ))])), ('with a chunk size', c.pre.store[CHUNK] > 0)]
    def modifies(self, c): return [CHUNKED]
    def ensures(self, c): return [('', c.new(CHUNKED) == c.old(CHUNKED) + 1)]


class Process(C):
    qname, nparams, is_method = IM + 'process', 1, True
    def inputs(self, ex, st):
        pkg.package(ex, st, PKG, 'package')
        T = ex.loc_types
        T[CHUNK] = INT; st.store[CHUNK] = ex.fresh(st, INT, 'chunk')
        T[CHUNKED] = 'int'; st.store[CHUNKED] = z3.IntVal(0)
        return THIS, [PKG]
    def ensures(self, c):
        g = gptr(c.pre, PKG.sub(GREQ))
        A = lambda rec, f, ty='int': arr(c.ex, c.pre, rec, f, ty)
        mine = z3.And(g != 0, A('Z_GDU', 'which')[g] == 1, A('Z_APDU', 'which')[A('Z_GDU', 'u.z3950', 'Z_APDU *')[g]] == zutil.KINDS['presentRequest'], c.pre.store[CHUNK] > 0)
        return [('present requests are answered in pieces if there is a chunk size', c.new(CHUNKED) == z3.If(mine, 1, 0)),
                ('everything else is passed on, once', c.new(PKG.sub('#moves')) == z3.If(mine, 0, 1))]


CONTRACTS = [ChunkIt(), ChunkItC(), Process()]
UNITS = [('src/filter_present_chunk.cpp', CONTRACTS, install)]

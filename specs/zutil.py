"""Contracts for src/util.cpp: Z39.50 and HTTP building blocks.

YAZ records live in an SMT heap; `which` selects the union member in use, and
a record read from a decoder has the members its `which` promises (stated as
heap facts, listed in ASSUME).  Ghost functions name contents of YAZ strings
(cstr) and octet strings (oct: buffer and length -> bytes)."""
import z3
from vcx.core import *
from vcx.lib import CHR, chr_axiom
from . import pkg
from .pkg import PKG, View, GREQ, GRES

I, St, Bo = z3.IntSort(), z3.StringSort(), z3.BoolSort()
S = z3.StringVal
U = 'metaproxy_1::util::'
O = 'metaproxy_1::odr::'
ODR = Loc(('odr',))
cstr = z3.Function('cstr', I, St)
ASSUME = ['records received from YAZ decoders have the members their "which" promises; mandatory fields are present']
INT = 'long long'


class C(Contract):
    standalone = True
    def byref(self, i): return True


class V(Contract):
    """contract used at call sites"""
    def byref(self, i): return False


def t(c): return c.term if isinstance(c, SymPtr) else c.lv.term if isinstance(c, LocPtr) and isinstance(c.lv, HLoc) and not c.lv.path else z3.IntVal(0)


def H(st, rec, path):
    return st.heap[(rec, path)] if (rec, path) in st.heap else None


def arr(ex, st, rec, path, ctype='int'):
    ex.heap_types.setdefault((rec, path), ctype)
    return ex.heap_arr(st, (rec, path), ctype)


def sz(st, name, ct, nonnull=False):
    v = z3.Int(name)
    st.assume(v > 0 if nonnull else v >= 0, v < st.alloc)
    return SymPtr(v, ct)


# ------------------------------------------------------------------ composition, piggyback
def esn_name(ex, st, e):
    """pointer to the generic element set name of an ElementSetNames record, 0 if none"""
    return z3.If(z3.And(e != 0, arr(ex, st, 'Z_ElementSetNames', 'which')[e] == 1), arr(ex, st, 'Z_ElementSetNames', 'u.generic', 'char *')[e], 0)


class RecComp(C):
    qname, nparams = U + 'record_composition_to_esn', 1
    def inputs(self, ex, st):
        c = sz(st, 'comp', 'Z_RecordComposition')
        return None, [c]
    def ensures(self, c):
        ex, st, p = c.ex, c.pre, t(c.args[0])
        A = lambda r, f, ty='char *': arr(ex, st, r, f, ty)
        cx = A('Z_RecordComposition', 'u.complex')[p]
        g = A('Z_CompSpec', 'generic')[cx]
        es = A('Z_Specification', 'elementSpec')[g]
        sp = A('Z_RecordComposition', 'u.simple')[p]
        w = A('Z_RecordComposition', 'which', 'int')[p]
        exp = z3.If(z3.And(p != 0, w == 2), z3.If(z3.And(g != 0, es != 0, A('Z_ElementSpec', 'which', 'int')[es] == 1), A('Z_ElementSpec', 'u.elementSetName')[es], 0),
                    z3.If(z3.And(p != 0, w == 1), z3.If(A('Z_ElementSetNames', 'which', 'int')[sp] == 1, A('Z_ElementSetNames', 'u.generic')[sp], 0), 0))
        r = c.ret.term if isinstance(c.ret, SymPtr) else z3.IntVal(0)
        return [('returns the element set name in the record composition, if there is one', r == exp)]


NUM, ESN = Loc(('number#',)), Loc(('esn#',))


def pig_number(small, large, medium, hits):
    return z3.If(hits < small, hits, z3.If(hits > large, z3.IntVal(0), z3.If(medium > hits, hits, medium)))


def pig_esn(small, large, hits, se, me, before):
    return z3.If(hits < small, z3.If(se != 0, se, before), z3.If(hits > large, z3.IntVal(0), z3.If(me != 0, me, before)))


class Piggy(C):
    qname, nparams = U + 'piggyback', 8
    label = 'element set name wanted'
    def inputs(self, ex, st):
        ex.loc_types = dict(ex.loc_types)
        a = [ex.fresh(st, INT, n) for n in ('small', 'large', 'medium')] + [sz(st, 'smallESN', 'char'), sz(st, 'mediumESN', 'char'), ex.fresh(st, INT, 'hits')]
        st.store[NUM] = ex.fresh(st, INT, 'number'); ex.loc_types[NUM] = INT
        return None, a + [NUM] + [self.out(ex, st)]
    def out(self, ex, st):
        st.store[ESN] = sz(st, 'esn0', 'char'); ex.loc_types[ESN] = 'const char *'
        return LocPtr(ESN)
    def ensures(self, c):
        s, l, m, se, me, h = c.args[:6]
        n = c.new(NUM)
        out = [('number of records follows the small, medium and large set limits', n == pig_number(s, l, m, h)),
               ('never more records than the result set has', n <= z3.If(h >= 0, h, z3.If(n <= 0, n, h))),
               ('none for a large set', z3.Implies(z3.And(h >= s, h > l), n == 0))]
        if ESN in c.pre.store:
            e = t(c.new(ESN)) if not isinstance(c.new(ESN), Null) else z3.IntVal(0)
            out.append(('element set name is the one for the size of the set', e == pig_esn(s, l, h, t(se), t(me), t(c.old(ESN)))))
        return out


class PiggyNo(Piggy):
    label = 'no element set name wanted'
    def out(self, ex, st): return NULL


class Piggy5(C):
    qname, nparams = U + 'piggyback', 5
    def inputs(self, ex, st):
        ex.loc_types = dict(ex.loc_types)
        a = [ex.fresh(st, 'int', n) for n in ('small', 'large', 'medium', 'hits')]
        st.store[NUM] = ex.fresh(st, 'int', 'number'); ex.loc_types[NUM] = 'int'
        return None, a + [NUM]
    def ensures(self, c):
        s, l, m, h = c.args[:4]
        return [('number of records follows the small, medium and large set limits', c.new(NUM) == pig_number(s, l, m, h))]


def sreq_parts(ex, st, r):
    A = lambda f, ty: arr(ex, st, 'Z_SearchRequest', f, ty)[r]
    num = lambda f: arr(ex, st, 'long long', '', INT)[A(f, 'long long *')]
    return [num(f) for f in ('smallSetUpperBound', 'largeSetLowerBound', 'mediumSetPresentNumber')] + \
        [esn_name(ex, st, A(f, 'Z_ElementSetNames *')) for f in ('smallSetElementSetNames', 'mediumSetElementSetNames')]


class PiggySr(C):
    qname, nparams = U + 'piggyback_sr', 4
    def inputs(self, ex, st):
        ex.loc_types = dict(ex.loc_types)
        st.store[NUM] = ex.fresh(st, INT, 'number'); ex.loc_types[NUM] = INT
        st.store[ESN] = sz(st, 'esn0', 'char'); ex.loc_types[ESN] = 'const char *'
        return None, [sz(st, 'sreq', 'Z_SearchRequest', True), ex.fresh(st, INT, 'hits'), NUM, LocPtr(ESN)]
    def ensures(self, c):
        s, l, m, se, me = sreq_parts(c.ex, c.pre, t(c.args[0]))
        h = c.args[1]
        return [('number of records follows the limits of the request', c.new(NUM) == pig_number(s, l, m, h)),
                ('element set name is the one of the request for the size of the set', t(c.new(ESN)) == pig_esn(s, l, h, se, me, t(c.old(ESN))))]


class PiggyComp(C):
    qname, nparams = U + 'piggyback_to_RecordComposition', 3
    def inputs(self, ex, st):
        ex.loc_types = dict(ex.loc_types)
        return None, [SymPtr(z3.Int('odr'), 'odr'), ex.fresh(st, INT, 'hits'), sz(st, 'sreq', 'Z_SearchRequest', True)]
    def ensures(self, c):
        ex = c.ex
        s, l, m, se, me = sreq_parts(ex, c.pre, t(c.args[2]))
        e = pig_esn(s, l, c.args[1], se, me, z3.IntVal(0))
        if not isinstance(c.ret, SymPtr): return [('no record composition only if there is no element set name', e == 0)]
        r = c.ret.term
        A = lambda rec, f, ty: arr(ex, c.post, rec, f, ty)
        sp = A('Z_RecordComposition', 'u.simple', 'Z_ElementSetNames *')[r]
        return [('record composition exactly if there is an element set name', (r != 0) == (e != 0)),
                ('it names that element set', z3.Implies(r != 0, z3.And(A('Z_RecordComposition', 'which', 'int')[r] == 1, sp != 0, A('Z_ElementSetNames', 'which', 'int')[sp] == 1,
                                                                      cstr(A('Z_ElementSetNames', 'u.generic', 'char *')[sp]) == cstr(e))))]


# ------------------------------------------------------------------ reference ids, responses
def kinds():
    """Z_APDU_<member> numbers, from the YAZ header"""
    import re
    out = {}
    for l in open('/usr/include/yaz/z-core.h'):
        m = re.match(r'#define Z_APDU_(\w+) (\d+)', l)
        if m: out[m.group(1)] = int(m.group(2))
    return out


KINDS = kinds()
NOREF = ('duplicateDetectionRequest', 'duplicateDetectionResponse')     # kinds Metaproxy does not handle
SLOT = z3.Function('refid_slot', I, I)           # where an APDU keeps its reference id
OWNER = z3.Function('refid_owner', I, I)
BYTES = z3.Function('membytes', I, I, St)
DERR, DADD = z3.Function('diag_error', I, I), z3.Function('diag_addinfo', I, St)
REFP = 'Z_ReferenceId *'


def known(w): return z3.And(w >= 1, w <= 23)


def apdu(st, name, nonnull=False): return sz(st, name, 'Z_APDU', nonnull)


def which(ex, st, a): return arr(ex, st, 'Z_APDU', 'which')[a]


class GetRef(V):
    qname, nparams = U + 'get_referenceId', 1
    def inputs(self, ex, st): return None, [apdu(st, 'apdu', True)]
    def requires(self, c): return [('APDU present', t(c.args[0]) > 0)]
    def result(self, c):
        a = t(c.args[0])
        w = which(c.ex, c.pre, a)
        c.post.assume(SLOT(a) > 0, OWNER(SLOT(a)) == a)
        return SymPtr(z3.If(known(w), SLOT(a), 0), REFP)
    def ensures(self, c):
        if c.ex.cur_contract is not self: return []
        a = t(c.args[0])
        w = which(c.ex, c.pre, a)
        lv = c.ret.lv if isinstance(c.ret, LocPtr) else None
        if lv is None: return [('no reference id only for an APDU of unknown kind', z3.Not(known(w)))]
        m = [k for k in KINDS if k not in NOREF and isinstance(lv, HLoc) and lv.path == ('referenceId',)
             and ('Z_APDU', 'u.' + k) in c.post.heap and lv.term.eq(c.post.heap[('Z_APDU', 'u.' + k)][a])]
        return [('returns the place of the reference id of this kind of APDU', z3.Or(*[w == KINDS[k] for k in m]) if m else z3.BoolVal(False))]


def slots(ex, st): return arr(ex, st, REFP, '', 'odr_oct *')


def ref_of(ex, st, a):
    """(present, bytes, length) of the reference id of APDU a"""
    r = slots(ex, st)[SLOT(a)]
    b, l = arr(ex, st, 'odr_oct', 'buf', 'char *')[r], arr(ex, st, 'odr_oct', 'len', 'int')[r]
    return z3.And(a != 0, known(which(ex, st, a)), r != 0), BYTES(b, l), l


def carries(c, ret, src):
    """APDU ret carries the reference id of src (none if src has none)"""
    p0, b0, l0 = ref_of(c.ex, c.pre, src)
    p1, b1, l1 = ref_of(c.ex, c.post, ret)
    return [('has a reference id exactly if the other one has', p0 == p1),
            ('the reference id is the same', z3.Implies(p0, z3.And(b1 == b0, l1 == l0)))]


class Transfer(C):
    qname, nparams = U + 'transfer_referenceId', 3
    def inputs(self, ex, st):
        s, d = apdu(st, 'src'), apdu(st, 'dst', True)
        st.assume(s.term != d.term, known(which(ex, st, d.term)), OWNER(SLOT(s.term)) == s.term, OWNER(SLOT(d.term)) == d.term)
        return None, [SymPtr(z3.Int('odr'), 'odr'), s, d]
    def ensures(self, c): return carries(c, t(c.args[2]), t(c.args[1])) + [('the other APDU keeps its own', z3.And(*[x == y for x, y in zip(ref_of(c.ex, c.pre, t(c.args[1])), ref_of(c.ex, c.post, t(c.args[1])))]))]


class CreateApdu(C):
    qname, nparams = U + 'create_APDU', 3
    def inputs(self, ex, st):
        ty = z3.Int('type'); st.assume(known(ty))
        s = apdu(st, 'in_apdu')
        st.assume(OWNER(SLOT(s.term)) == s.term)
        return None, [SymPtr(z3.Int('odr'), 'odr'), ty, s]
    def ensures(self, c):
        if not isinstance(c.ret, SymPtr): return [('returns an APDU', z3.BoolVal(False))]
        return [('has the wanted kind', which(c.ex, c.post, c.ret.term) == c.args[1])] + carries(c, c.ret.term, t(c.args[2]))


class Create(C):
    is_method = True
    kind = ''
    def inputs(self, ex, st):
        this = Loc(('this',))
        ex.loc_types = dict(ex.loc_types)
        ex.loc_types[this.sub('m_odr')] = 'odr *'
        st.store[this.sub('m_odr')] = SymPtr(z3.Int('odr'), 'odr')
        s = apdu(st, 'in_apdu')
        st.assume(OWNER(SLOT(s.term)) == s.term)
        return this, [s, ex.fresh(st, 'int', 'error'), sz(st, 'addinfo', 'char')]
    def ensures(self, c):
        if not isinstance(c.ret, SymPtr): return [('returns an APDU', z3.BoolVal(False))]
        r, err, add = c.ret.term, c.args[1], t(c.args[2])
        m = arr(c.ex, c.post, 'Z_APDU', 'u.' + self.kind, 'Z_%s *' % self.kind)[r]
        A = lambda rec, f, ty='int': arr(c.ex, c.post, rec, f, ty)
        text = z3.If(add == 0, S(''), cstr(add))
        return [('is a response of the right kind', which(c.ex, c.post, r) == KINDS[self.kind])] + carries(c, r, t(c.args[0])) + self.post(c, A, m, err, text)
    def nsd(self, A, recs, err, text):
        d = A('Z_Records', 'u.nonSurrogateDiagnostic', 'Z_DefaultDiagFormat *')[recs]
        return z3.And(recs != 0, A('Z_Records', 'which')[recs] == 2, d != 0, DERR(d) == err, DADD(d) == text)


class CreateSearch(Create):
    qname, nparams, kind = O + 'create_searchResponse', 3, 'searchResponse'
    def post(self, c, A, m, err, text):
        R = 'Z_SearchResponse'
        st, recs = A('int', '')[A(R, 'searchStatus', 'int *')[m]], A(R, 'records', 'Z_Records *')[m]
        return [('an error is reported with its code and text', z3.Implies(err != 0, self.nsd(A, recs, err, text))),
                ('search status tells failure exactly for an error', (st == 0) == (err != 0)), ('no records without error', z3.Implies(err == 0, recs == 0))]


class CreatePresent(Create):
    qname, nparams, kind = O + 'create_presentResponse', 3, 'presentResponse'
    def post(self, c, A, m, err, text):
        R = 'Z_PresentResponse'
        st, recs = A('long long', '', INT)[A(R, 'presentStatus', 'long long *')[m]], A(R, 'records', 'Z_Records *')[m]
        return [('an error is reported with its code and text', z3.Implies(err != 0, self.nsd(A, recs, err, text))),
                ('present status tells failure exactly for an error', st == z3.If(err != 0, z3.IntVal(5), z3.IntVal(0))), ('no records without error', z3.Implies(err == 0, recs == 0))]


class CreateInit(Create):
    qname, nparams, kind = O + 'create_initResponse', 3, 'initResponse'
    def post(self, c, A, m, err, text):
        R = 'Z_InitResponse'
        st, ui = A('int', '')[A(R, 'result', 'int *')[m]], A(R, 'userInformationField', 'Z_External *')[m]
        return [('an error is reported with its code and text', z3.Implies(err != 0, z3.And(ui != 0, DERR(ui) == err, DADD(ui) == text))),
                ('the session is refused exactly for an error', (st == 0) == (err != 0)), ('no diagnostic without error', z3.Implies(err == 0, ui == 0)),
                ('names Metaproxy', z3.PrefixOf(S('Metaproxy'), cstr(A(R, 'implementationName', 'char *')[m])))]


class CreateScan(Create):
    qname, nparams, kind = O + 'create_scanResponse', 3, 'scanResponse'
    def post(self, c, A, m, err, text):
        R = 'Z_ScanResponse'
        st, e = A('long long', '', INT)[A(R, 'scanStatus', 'long long *')[m]], A(R, 'entries', 'Z_ListEntries *')[m]
        L = 'Z_ListEntries'
        n, ne = A(L, 'num_nonsurrogateDiagnostics')[e], A(L, 'num_entries')[e]
        d = ELEM(A, A(L, 'nonsurrogateDiagnostics', 'Z_DiagRec **')[e], 'Z_DiagRec *')
        return [('has an empty list of entries', z3.And(e != 0, ne == 0)), ('one diagnostic for an error, none otherwise', n == z3.If(err != 0, z3.IntVal(1), z3.IntVal(0))),
                ('an error is reported with its code and text', z3.Implies(err != 0, z3.And(d != 0, DERR(d) == err, DADD(d) == text))),
                ('scan status tells failure exactly for an error', st == z3.If(err != 0, z3.IntVal(6), z3.IntVal(0)))]


def ELEM(A, base, ty): return A(ty, '', ty)[base]


class CreateClose(Create):
    qname, nparams, kind = O + 'create_close', 3, 'close'
    def post(self, c, A, m, reason, text):
        R = 'Z_Close'
        rs, di = A('long long', '', INT)[A(R, 'closeReason', 'long long *')[m]], A(R, 'diagnosticInformation', 'char *')[m]
        return [('gives the reason', rs == reason), ('gives the additional information, if any', z3.If(t(c.args[2]) == 0, di == 0, z3.And(di != 0, cstr(di) == text)))]


ZGET = {    # defaults zget_APDU gives: member -> (record, {pointer field: (cell type, value)}, [fields that are null])
    'searchResponse': ('Z_SearchResponse', dict(searchStatus=('int', 1), resultCount=('long long', 0), numberOfRecordsReturned=('long long', 0), nextResultSetPosition=('long long', 0)), ['records']),
    'presentResponse': ('Z_PresentResponse', dict(presentStatus=('long long', 0), numberOfRecordsReturned=('long long', 0)), ['records', 'nextResultSetPosition']),
    'initResponse': ('Z_InitResponse', dict(result=('int', 1)), ['userInformationField']),
    'scanResponse': ('Z_ScanResponse', dict(scanStatus=('long long', 0)), ['entries']),
    'close': ('Z_Close', dict(closeReason=('long long', 0)), ['diagnosticInformation']),
}
NULLTY = dict(records='Z_Records *', nextResultSetPosition='long long *', userInformationField='Z_External *', entries='Z_ListEntries *', diagnosticInformation='char *')


def zget(ex, s, this, a, n):
    p = ex.new_object(s, 'Z_APDU')
    ex.wr(s, HLoc('Z_APDU', p.term, ('which',)), a[1], n, 'int')
    s.assume(OWNER(SLOT(p.term)) == p.term)
    k = [k for k, v in KINDS.items() if z3.is_int_value(simp(a[1])) and simp(a[1]).as_long() == v]
    if k and k[0] in ZGET:
        rec, cells, nulls = ZGET[k[0]]
        m = ex.new_object(s, rec)
        ex.wr(s, HLoc('Z_APDU', p.term, ('u', k[0])), m, n, rec + ' *')
        for f, (ty, v) in cells.items():
            c = ex.new_object(s, ty)
            ex.wr(s, HLoc(ty, c.term, ()), z3.IntVal(v), n, ty)
            ex.wr(s, HLoc(rec, m.term, (f,)), c, n, ty + ' *')
        for f in nulls:
            ex.wr(s, HLoc(rec, m.term, (f,)), SymPtr(z3.IntVal(0), pointee(NULLTY[f])), n, NULLTY[f])
    return [(s, p)]


def octs(ex, s, this, a, n):
    p = ex.new_object(s, 'odr_oct')
    b = ex.new_object(s, 'char')
    src = a[1]
    ex.wr(s, HLoc('odr_oct', p.term, ('buf',)), b, n, 'char *')
    ex.wr(s, HLoc('odr_oct', p.term, ('len',)), a[2], n, 'int')
    s.assume(BYTES(b.term, a[2]) == BYTES(src.term, a[2]))
    return [(s, p)]


def diag(ty):
    def f(ex, s, this, a, n):
        p = ex.new_object(s, ty)
        add = a[2]
        txt = S('') if isinstance(add, Null) else z3.If(add.term == 0, S(''), ex.cstr(add)) if isinstance(add, SymPtr) else ex.sval(s, add, n)
        s.assume(DERR(p.term) == a[1], DADD(p.term) == txt)
        return [(s, p)]
    return f


def prepend(ex, s, this, a, n):
    p = ex.new_object(s, 'char')
    s.assume(z3.PrefixOf(ex.sval(s, a[1], n), cstr(p.term)))
    return [(s, p)]


# ------------------------------------------------------------------ HTTP
HDR = z3.Function('header_value', I, St, I)      # value of the first header of that name from a header on; 0 if none
hrank = z3.Function('header_rank', I, I)
HN, HV, HX = [z3.Const('H.Z_HTTP_Header.' + f, z3.ArraySort(I, I)) for f in ('name', 'value', 'next')]
LOOKUP = z3.Function('http_header_lookup', I, St, I)      # what YAZ's own lookup returns
ADDED = Loc(('ghost:headers added',))


def hdr_axioms():
    p, x = z3.Int('p!h'), z3.Const('x!h', St)
    fa = lambda vs, b, pat: z3.ForAll(vs, b, patterns=[pat])
    stop = z3.Or(p == 0, HN[p] == 0)
    return [fa([p, x], z3.Implies(stop, HDR(p, x) == 0), HDR(p, x)),
            fa([p, x], z3.Implies(z3.And(z3.Not(stop), cstr(HN[p]) == x), HDR(p, x) == HV[p]), HDR(p, x)),
            fa([p, x], z3.Implies(z3.And(z3.Not(stop), cstr(HN[p]) != x), HDR(p, x) == HDR(HX[p], x)), z3.MultiPattern(HDR(p, x), HX[p])),
            fa([p], z3.And(hrank(p) >= 0, z3.Implies(p != 0, hrank(HX[p]) < hrank(p)), HX[p] >= 0), HX[p]), fa([p], hrank(p) >= 0, hrank(p))]


class HeaderValue(C):
    qname, nparams = U + 'http_header_value', 2
    def inputs(self, ex, st):
        ex.axioms = list(ex.axioms) + hdr_axioms()
        ex.ptr_measure = lambda x: hrank(x.term) if 'HTTP_Header' in x.ctype else None
        self.n = z3.String('name')
        return None, [sz(st, 'header', 'Z_HTTP_Header'), self.n]
    def ensures(self, c):
        v = HDR(t(c.args[0]), self.n)
        return [('value of the first header of that name, empty if there is none', c.ret == z3.If(v == 0, S(''), cstr(v)))]
    def invariants(self, L):
        return [('the header looked for comes after %s' % n, lambda L, lv=lv: HDR(L.cur.store[lv].term, self.n) == HDR(L.entry.store[lv].term, self.n))
                for n, lv, v in L._vals() if isinstance(v, SymPtr) and 'HTTP_Header' in v.ctype]


SES = Loc(('session#',))


class HttpResp(C):
    qname, nparams, is_method = O + 'create_HTTP_Response_details', 4, True
    def details(self, st): return sz(st, 'details', 'char')
    def inputs(self, ex, st):
        this = Loc(('this',))
        ex.loc_types = dict(ex.loc_types)
        ex.loc_types[this.sub('m_odr')] = 'odr *'
        st.store[this.sub('m_odr')] = SymPtr(z3.Int('odr'), 'odr')
        ex.loc_types[SES.sub('m_close')] = 'bool'; ex.loc_types[SES.sub('m_id')] = 'unsigned long'
        st.store[SES.sub('m_close')] = z3.Bool('closed'); st.store[SES.sub('m_id')] = ex.fresh(st, 'unsigned long', 'id')
        st.store[ADDED] = z3.Empty(z3.SeqSort(St))
        a = [SES, sz(st, 'hreq', 'Z_HTTP_Request', True), ex.fresh(st, 'int', 'code')]
        return this, a + ([self.details(st)] if self.nparams == 4 else [])
    def ensures(self, c):
        if not isinstance(c.ret, SymPtr): return [('returns a response', z3.BoolVal(False))]
        A0 = lambda f, ty: arr(c.ex, c.pre, 'Z_HTTP_Request', f, ty)[t(c.args[1])]
        v10 = cstr(A0('version', 'char *')) == S('1.0')
        cv = LOOKUP(A0('headers', 'Z_HTTP_Header *'), S('Connection'))
        keep = z3.If(v10, z3.And(cv != 0, cstr(cv) == S('Keep-Alive')), z3.Not(z3.And(cv != 0, cstr(cv) == S('close'))))
        A = lambda rec, f, ty='int': arr(c.ex, c.post, rec, f, ty)
        h = A('Z_GDU', 'u.HTTP_Response', 'Z_HTTP_Response *')[c.ret.term]
        return [('is an HTTP response with the wanted code', z3.And(A('Z_GDU', 'which')[c.ret.term] == 3, h != 0, A('Z_HTTP_Response', 'code')[h] == c.args[2])),
                ('the session is closed exactly if the client does not keep the connection', c.new(SES.sub('m_close')) == z3.Or(c.old(SES.sub('m_close')), z3.Not(keep))),
                ('tells the client that the connection is kept exactly if it is', c.new(ADDED) == z3.If(keep, z3.Unit(S('Connection: Keep-Alive')), z3.Empty(z3.SeqSort(St)))),
                ('speaks the HTTP version of the request', cstr(A('Z_HTTP_Response', 'version', 'char *')[h]) == z3.If(v10, S('1.0'), S('1.1')))]


class HttpResp3(HttpResp):
    qname, nparams = O + 'create_HTTP_Response', 3


def hlookup(ex, s, this, a, n):
    p = LOOKUP(a[0].term, ex.sval(s, a[1], n))
    s.assume(p >= 0, p < s.alloc)
    return [(s, SymPtr(p, 'char'))]


def hserver(ex, s, this, a, n):
    p, h = ex.new_object(s, 'Z_GDU'), ex.new_object(s, 'Z_HTTP_Response')
    ex.wr(s, HLoc('Z_GDU', p.term, ('which',)), z3.IntVal(3), n, 'int')
    ex.wr(s, HLoc('Z_GDU', p.term, ('u', 'HTTP_Response')), h, n, 'Z_HTTP_Response *')
    ex.wr(s, HLoc('Z_HTTP_Response', h.term, ('code',)), a[1], n, 'int')
    return [(s, p)]


def hadd(ex, s, this, a, n):
    if ADDED in s.store:
        ex.wr(s, ADDED, z3.Concat(s.store[ADDED], z3.Unit(z3.Concat(ex.sval(s, a[2], n), S(': '), ex.sval(s, a[3], n)))))
    return [(s, None)]


# ------------------------------------------------------------------ names, addresses, comparisons
LOW = z3.Function('lower', St, St)


def low(ch): return z3.If(z3.And(ch >= 65, ch <= 90), ch + 32, ch)


class Normalize(V):
    qname, nparams = U + 'database_name_normalize', 1
    def inputs(self, ex, st):
        ex.abstract_chars = ex.char_append = True
        ex.axioms = [chr_axiom()] + list(ex.axioms)
        x = z3.String('s'); st.assume(z3.Length(x) < 2**62)
        self.x = x
        return None, [x]
    def result(self, c): return LOW(c.args[0])
    def ensures(self, c):
        if c.ex.cur_contract is not self: return []
        k = z3.Int('k!n')
        return [('same length', z3.Length(c.ret) == z3.Length(self.x)),
                ('each letter A-Z becomes lower case, everything else stays', z3.Implies(z3.And(k >= 0, k < z3.Length(self.x)), CHR(c.ret, k) == low(CHR(self.x, k))))]
    def invariants(self, L):
        k = z3.Int('k!i')
        out = [('%s is at most the length' % n, lambda L, lv=lv: z3.And(L.cur.store[lv] >= 0, L.cur.store[lv] <= z3.Length(self.x))) for n, lv, v in L._vals() if z3.is_expr(v) and z3.is_int(v)]
        for n, lv, v in L._vals():
            if not (z3.is_expr(v) and z3.is_string(v)): continue
            out.append(('%s keeps its length' % n, lambda L, lv=lv: z3.Length(L.cur.store[lv]) == z3.Length(L.entry.store[lv])))
            for n2, lv2, v2 in L._vals():
                if not (z3.is_expr(v2) and z3.is_int(v2)): continue
                out.append(('%s has %s characters, converted' % (n, n2), lambda L, lv=lv, lv2=lv2: z3.And(z3.Length(L.cur.store[lv]) == L.cur.store[lv2], z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < z3.Length(L.cur.store[lv])),
                            CHR(L.cur.store[lv], k) == low(CHR(self.x, k))), patterns=[CHR(L.cur.store[lv], k)]))))
                out.append(('%s is converted below %s' % (n, n2), lambda L, lv=lv, lv2=lv2: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < z3.Length(L.cur.store[lv])),
                            CHR(L.cur.store[lv], k) == z3.If(k < L.cur.store[lv2], low(CHR(L.entry.store[lv], k)), CHR(L.entry.store[lv], k))), patterns=[CHR(L.cur.store[lv], k)])))
        return out


D1, D2 = Loc(('db1#',)), Loc(('db2#',))
SEQS = z3.SeqSort(St)


class Match(C):
    qname, nparams = U + 'match', 2
    def inputs(self, ex, st):
        ex.loc_types = dict(ex.loc_types)
        for d in (D1, D2):
            st.store[d] = ListVal(z3.Const(d[0][:3], SEQS), 'std::string'); ex.loc_types[d] = 'std::list<std::string>'
            st.assume(z3.Length(st.store[d].seq) < 2**60)
        return None, [D1, D2]
    def eq(self, L, i):
        k = z3.Int('k!m')
        a, b = L.old(D1).seq, L.old(D2).seq
        return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < i), LOW(a[k]) == LOW(b[k])))
    def ensures(self, c):
        a, b = c.old(D1).seq, c.old(D2).seq
        return [('true exactly if both name the same databases, in the same order', c.ret == z3.And(z3.Length(a) == z3.Length(b), self.eq(c, z3.Length(a))))]
    def invariants(self, L):
        its = [(n, lv) for n, lv, v in L._vals() if isinstance(v, IterVal)]
        out = []
        k = z3.Int('k!m')
        for n, lv in its:
            out.append(('names before %s are equal' % n, lambda L, lv=lv: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < L.cur.store[lv].idx), LOW(L.peek(D1).seq[k]) == LOW(L.peek(D2).seq[k])))))
            for n2, lv2 in its:
                if str(lv) < str(lv2): out.append(('%s and %s are at the same place' % (n, n2), lambda L, lv=lv, lv2=lv2: L.cur.store[lv].idx == L.cur.store[lv2].idx))
        return out


MEMCMP = z3.Function('memcmp', I, I, I, I)


class Memcmp2(C):
    qname, nparams = U + 'memcmp2', 4
    def inputs(self, ex, st):
        a = [sz(st, 'buf1', 'void', True), ex.fresh(st, 'int', 'len1'), sz(st, 'buf2', 'void', True), ex.fresh(st, 'int', 'len2')]
        st.assume(a[1] >= 0, a[3] >= 0)
        return None, a
    def ensures(self, c):
        b1, l1, b2, l2 = [t(x) if isinstance(x, SymPtr) else x for x in c.args]
        m = MEMCMP(b1, b2, z3.If(l1 < l2, l1, l2))
        sg = lambda v: z3.If(v > 0, z3.IntVal(1), z3.If(v < 0, z3.IntVal(-1), z3.IntVal(0)))
        return [('orders by the common part, then by length', c.ret == z3.If(m != 0, sg(m), sg(l1 - l2)))]


NXT = z3.Function('next_char', St, I, I, I)      # first position of a character at or after a position, -1 if none
SPL = z3.Function('split_at_plus', St, I, SEQS)
HOST, DB, ARGO = Loc(('host#',)), Loc(('db#',)), z3.Function('host_args', St, I)


def spl_axioms():
    x, o = z3.Const('x!s', St), z3.Int('o!s')
    nx = NXT(x, o, 43)
    return [z3.ForAll([x, o], z3.Implies(nx < 0, SPL(x, o) == z3.Unit(z3.SubString(x, o, z3.Length(x) - o))), patterns=[z3.MultiPattern(SPL(x, o), nx)]),
            z3.ForAll([x, o], z3.Implies(nx >= 0, SPL(x, o) == z3.Concat(z3.Unit(z3.SubString(x, o, nx - o)), SPL(x, nx + 1))), patterns=[z3.MultiPattern(SPL(x, o), nx)])]


class SplitZurl(C):
    qname, nparams = U + 'split_zurl', 3
    def inputs(self, ex, st):
        ex.axioms = list(ex.axioms) + spl_axioms()
        ex.loc_types = dict(ex.loc_types)
        self.z = z3.String('zurl'); st.assume(z3.Length(self.z) < 2**60)
        st.store[HOST] = z3.String('host0'); ex.loc_types[HOST] = 'std::string'
        st.store[DB] = ListVal(z3.Const('db0', SEQS), 'std::string'); ex.loc_types[DB] = 'std::list<std::string>'
        return None, [self.z, HOST, DB]
    def ensures(self, c):
        o = ARGO(self.z)
        has = z3.And(o >= 1, o < z3.Length(self.z), str_buf(self.z).rd(o) != 0)
        return [('host is what comes before the database part', c.new(HOST) == z3.If(has, z3.SubString(self.z, 0, o - 1), self.z)),
                ('databases are the parts between the plus signs, in order', c.new(DB).seq == z3.If(has, z3.Concat(c.old(DB).seq, SPL(self.z, o)), c.old(DB).seq))]
    def invariants(self, L):
        out = []
        for n, lv, v in L._vals():
            if isinstance(v, BufPtr):
                out.append(('%s is not null' % n, lambda L, lv=lv: z3.Not(L.cur.store[lv].null)))
                out.append(('the rest of the databases starts at %s' % n, lambda L, lv=lv:
                            z3.Concat(L.peek(DB).seq, SPL(self.z, L.cur.store[lv].off)) == z3.Concat(L.peek0(DB).seq, SPL(self.z, L.entry.store[lv].off)) if isinstance(L.entry.store.get(lv), BufPtr) else None))
        return out


def strchr_spec(ex, s, this, a, n, old=None):
    p, ch = a
    p = ex.as_buf(s, p, n)
    if not hasattr(p.buf, 'term'): return old(ex, s, this, a, n)
    r = NXT(p.buf.term, p.off, ch)
    s.assume(z3.Length(p.buf.term) < 2**62)
    s.assume(z3.Or(r == -1, z3.And(r >= p.off, r < z3.Length(p.buf.term), p.buf.rd(r) == ch)))
    return [(s, BufPtr(p.buf, r, r < 0))]


def host_args(ex, s, this, a, n):
    """cs_get_host_args: the database part starts after a separator, or there is none"""
    p = a[0]
    o = ARGO(p.buf.term)
    s2 = s.copy()
    s.assume(o >= 1, o <= z3.Length(p.buf.term)); s2.assume(z3.Not(z3.And(o >= 1, o <= z3.Length(p.buf.term))))
    ex.wr(s, a[1].lv, BufPtr(p.buf, o), n)
    ex.wr(s2, a[1].lv, ex.lit(b''), n)
    return [(s, p), (s2, p)]


SPB = z3.Function('split_at_blanks', St, SEQS)
GLOB = z3.Function('glob', St, St, Bo)
ALLE, URE = z3.Function('all_empty', SEQS, I, Bo), z3.Function('unfold_all_empty', SEQS, I, Bo)


HIT, URH = z3.Function('item_matches', I, Bo), z3.Function('unfold_item_matches', I, Bo)


def empty(x): return str_buf(x).rd(0) == 0


class MatchIp(C):
    qname, nparams = U + 'match_ip', 2
    def inputs(self, ex, st):
        q, k = z3.Const('q!e', SEQS), z3.Int('k!e')
        ex.axioms = list(ex.axioms) + [z3.ForAll([q, k], URE(q, k), patterns=[URE(q, k)]), z3.ForAll([q, k], z3.Implies(k <= 0, ALLE(q, k)), patterns=[ALLE(q, k)]),
                                       z3.ForAll([q, k], z3.Implies(k > 0, ALLE(q, k) == z3.And(ALLE(q, k - 1), empty(q[k - 1]))), patterns=[z3.MultiPattern(ALLE(q, k), URE(q, k))])]
        ex.loc_types = dict(ex.loc_types)
        self.p, self.v = z3.String('pattern'), z3.String('value')
        it = SPB(self.p)[k]
        # the pattern is a C string from the configuration: an item that starts with a zero byte is empty
        hd = z3.And(HIT(k) == self.hit(it), empty(it) == (z3.Length(it) == 0))
        ex.axioms += [z3.ForAll([k], hd, patterns=[HIT(k)]), z3.ForAll([k], z3.And(URH(k), hd), patterns=[URH(k)])]
        st.assume(z3.Length(self.v) < 2**60, z3.Length(SPB(self.p)) < 2**60)
        return None, [self.p, self.v]
    def hit(self, x):
        # an item matches the address as it is; an item without colon also matches an IPv4 address in IPv6 notation
        v = self.v
        mapped = z3.And(z3.Length(v) > 7, z3.SubString(v, 0, 7) == S('::ffff:'))
        return z3.And(z3.Not(empty(x)), z3.Or(GLOB(x, v), z3.And(NXT(x, 0, 58) < 0, mapped, GLOB(x, z3.SubString(v, 7, z3.Length(v) - 7)))))
    def some(self, q, i):
        k = z3.Int('k!h')
        return z3.Exists([k], z3.And(k >= 0, k < i, HIT(k)), patterns=[HIT(k)])
    def none(self, q, i):
        k = z3.Int('k!h')
        return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < i), z3.Not(HIT(k))), patterns=[HIT(k)])
    def ensures(self, c):
        q = SPB(self.p)
        n = z3.Length(q)
        return [('true only if an item of the pattern matches the address, or there is no item', z3.Implies(z3.And(URE(q, n), c.ret), z3.Or(self.some(q, n), ALLE(q, n)))),
                ('true if an item of the pattern matches the address', z3.Implies(z3.Not(c.ret), self.none(q, n))),
                ('true if the pattern has no item', z3.Implies(z3.And(URE(q, n), z3.Not(c.ret)), z3.Not(ALLE(q, n))))]
    def invariants(self, L):
        out = []
        for n, lv, v in L._vals():
            if not isinstance(v, IterVal): continue
            out.append(('no item before %s matches' % n, lambda L, lv=lv: z3.And(URH(L.cur.store[lv].idx), self.none(SPB(self.p), L.cur.store[lv].idx))))
            for n2, lv2, v2 in L._vals():
                if z3.is_expr(v2) and z3.is_bool(v2):
                    out.append(('%s tells whether all items before %s are empty' % (n2, n), lambda L, lv=lv, lv2=lv2:
                                z3.Implies(URE(SPB(self.p), L.cur.store[lv].idx), L.cur.store[lv2] == ALLE(SPB(self.p), L.cur.store[lv].idx))))
        return out


def bsplit(ex, s, this, a, n):
    ex.wr(s, a[0], ListVal(SPB(ex.sval(s, a[1], n)), 'std::string'), n)
    return [(s, a[0])]


def memcmp(ex, s, this, a, n):
    if isinstance(a[0], BufPtr) and isinstance(a[1], BufPtr):
        x, y = ex.to_string(a[0]), ex.to_string(a[1])
        ex.require(s, z3.And(a[2] >= 0, a[2] <= z3.Length(x) + 1, a[2] <= z3.Length(y) + 1), 'memcmp inside both buffers', n)
        r = z3.Int(fresh_name('memcmp'))
        s.assume((r == 0) == (z3.SubString(x, 0, a[2]) == z3.SubString(y, 0, a[2])))
        return [(s, r)]
    r = MEMCMP(a[0].term, a[1].term, a[2])
    ex.require(s, a[2] >= 0, 'memcmp of a non-negative length', n)
    s.assume(r >= -2**31, r < 2**31)
    return [(s, r)]


def glob(ex, s, this, a, n):
    r = z3.Int(fresh_name('glob'))
    s.assume((r != 0) == GLOB(ex.sval(s, a[0], n), ex.sval(s, a[1], n)))
    return [(s, r)]


ERRC, ADDI = Loc(('error_code#',)), Loc(('addinfo#',))


class DefaultDiag(C):
    qname, nparams = U + 'get_default_diag', 3
    def inputs(self, ex, st):
        ex.loc_types = dict(ex.loc_types)
        st.store[ERRC] = ex.fresh(st, 'int', 'error0'); ex.loc_types[ERRC] = 'int'
        st.store[ADDI] = z3.String('addinfo0'); ex.loc_types[ADDI] = 'std::string'
        r = sz(st, 'r', 'Z_DefaultDiagFormat', True)
        w = arr(ex, st, 'Z_DefaultDiagFormat', 'which')[r.term]
        cd = arr(ex, st, 'long long', '', INT)[arr(ex, st, 'Z_DefaultDiagFormat', 'condition', 'long long *')[r.term]]
        st.assume(w >= 1, w <= 2, cd >= -2**31, cd < 2**31)
        return None, [r, ERRC, ADDI]
    def ensures(self, c):
        A = lambda f, ty='int': arr(c.ex, c.pre, 'Z_DefaultDiagFormat', f, ty)[t(c.args[0])]
        cond = arr(c.ex, c.pre, 'long long', '', INT)[A('condition', 'long long *')]
        return [('gives the error code', c.new(ERRC) == cond),
                ('gives the additional information of either form', c.new(ADDI) == cstr(z3.If(A('which') == 1, A('u.v2Addinfo', 'char *'), A('u.v3Addinfo', 'char *'))))]


VH = z3.Function('vhost', I, I)        # address of the virtual host with that category value, 0 if there is none
VS = z3.Function('vhosts_before', I, SEQS)
URV = z3.Function('unfold_vhosts', I, Bo)
VHL, NV = Loc(('vhosts#',)), z3.Int('number of vhosts')


class Vhosts(C):
    qname, nparams = U + 'get_or_remove_vhost_otherinfo', 3
    def inputs(self, ex, st):
        k = z3.Int('k!v')
        ex.axioms = list(ex.axioms) + [VS(1) == z3.Empty(SEQS), z3.ForAll([k], URV(k), patterns=[URV(k)]),
                                       z3.ForAll([k], z3.Implies(k > 1, VS(k) == z3.Concat(VS(k - 1), z3.Unit(cstr(VH(k - 1))))), patterns=[z3.MultiPattern(VS(k), URV(k))]),
                                       z3.ForAll([k], z3.And(VH(k) >= 0, z3.Implies(z3.And(k >= 1, k <= NV), VH(k) > 0)), patterns=[VH(k)]), VH(NV + 1) == 0, NV >= 0, NV < 2**30]
        ex.loc_types = dict(ex.loc_types)
        st.store[VHL] = ListVal(z3.Const('vhosts0', SEQS), 'std::string'); ex.loc_types[VHL] = 'std::list<std::string>'
        return None, [SymPtr(z3.Int('oi'), 'Z_OtherInformation *'), z3.Bool('remove'), VHL]
    def ensures(self, c):
        return [('counts the virtual hosts', c.ret == NV), ('lists them in order', z3.Implies(URV(NV + 1), c.new(VHL).seq == z3.Concat(c.old(VHL).seq, VS(NV + 1))))]
    def invariants(self, L):
        out = []
        for n, lv, v in L._vals():
            if z3.is_expr(v) and z3.is_int(v):
                for d, w in ((0, 'the category asked for next'), (1, 'the number of those seen')):
                    at = lambda L, lv=lv, d=d: L.cur.store[lv] + d
                    out += [('%s is %s' % (n, w), lambda L, at=at: z3.And(at(L) >= 1, at(L) <= NV + 1)),
                            ('virtual hosts are listed up to %s, %s' % (n, w), lambda L, at=at: z3.Implies(URV(at(L)), L.peek(VHL).seq == z3.Concat(L.peek0(VHL).seq, VS(at(L)))))]
        return out
    def measures(self, L):
        return [('virtual hosts left after %s' % n, lambda L, lv=lv: NV + 1 - L.cur.store[lv]) for n, lv, v in L._vals() if z3.is_expr(v) and z3.is_int(v)]


def oi_get(ex, s, this, a, n):
    # reading (or reading and removing) one category leaves the others alone; every category is asked for once
    if isinstance(ex.cur_contract, Vhosts):
        ex.require(s, z3.Implies(VH(a[2]) > 0, ex.truth(s, a[3], n) == z3.Bool('remove')), 'a virtual host found is removed from the request exactly if it is to be', n)
    return [(s, SymPtr(VH(a[2]), 'char'))]


# ------------------------------------------------------------------ package level helpers
BCON = ('bytes', '')          # ghost: contents of a buffer on the heap


class HttpResponse(C):
    qname, nparams = U + 'http_response', 3
    def inputs(self, ex, st):
        pkg.package(ex, st, PKG, 'package')
        g = st.store[PKG.sub(GREQ).sub('m_gdu')].term
        st.assume(g > 0, arr(ex, st, 'Z_GDU', 'which')[g] == 2)
        st.store[ADDED] = z3.Empty(z3.SeqSort(St))
        x = z3.String('content'); st.assume(z3.Length(x) < 2**31)
        return None, [PKG, x, ex.fresh(st, 'int', 'code')]
    def ensures(self, c):
        ex = c.ex
        w = View(ex, c.post, PKG.sub(GRES)); g = w.root()
        h = w('Z_GDU', 'u.HTTP_Response', g, 'Z_HTTP_Response *')
        ex.heap_types[BCON] = 'std::string'
        buf = w('Z_HTTP_Response', 'content_buf', h, 'char *')
        q = arr(ex, c.pre, 'Z_GDU', 'u.HTTP_Request', 'Z_HTTP_Request *')[c.pre.store[PKG.sub(GREQ).sub('m_gdu')].term]
        A0 = lambda f, ty: arr(ex, c.pre, 'Z_HTTP_Request', f, ty)[q]
        v10 = cstr(A0('version', 'char *')) == S('1.0')
        cv = LOOKUP(A0('headers', 'Z_HTTP_Header *'), S('Connection'))
        keep = z3.If(v10, z3.And(cv != 0, cstr(cv) == S('Keep-Alive')), z3.Not(z3.And(cv != 0, cstr(cv) == S('close'))))
        cl = PKG.sub('m_session').sub('m_close')
        return [('the response is an HTTP response with the wanted code', z3.And(w('Z_GDU', 'which', g) == 3, h != 0, w('Z_HTTP_Response', 'code', h) == c.args[2])),
                ('its body has the length of the content', w('Z_HTTP_Response', 'content_len', h) == z3.Length(c.args[1])),
                ('its body is the content', w('bytes', '', buf, 'std::string') == c.args[1]),
                ('the session is closed exactly if the client does not keep the connection', c.new(cl) == z3.Or(c.old(cl), z3.Not(keep)))]


def memcpy(ex, s, this, a, n):
    d, b, ln = a
    if not isinstance(d, SymPtr): raise Unsupported('memcpy to %r' % (d,), n, ex)
    ex.require(s, z3.And(ln >= 0, ln <= pkg.BYTES(d.term)), 'memcpy inside the destination', n)
    x = ex.to_string(b)
    ex.require(s, ln <= z3.Length(x) + 1, 'memcpy inside the source', n)
    ex.heap_types[BCON] = 'std::string'
    ex.wr(s, HLoc('bytes', d.term, ()), z3.SubString(x, 0, ln), n, 'std::string')
    return [(s, d)]


VSET, VLIST, OIP = Loc(('virtual hosts set#',)), Loc(('vhosts#',)), Loc(('otherInformation#',))
ENT = z3.Function('vhost_entry', I, St, I)        # one entry: category value and name
ENTS, URE2 = z3.Function('vhost_entries', SEQS, I, z3.SeqSort(I)), z3.Function('unfold_vhost_entries', I, Bo)   # entries of the first n names


class SetVhosts(C):
    """appends one proxy entry per virtual host, categories 1, 2, ..."""
    qname, nparams = U + 'set_vhost_otherinfo', 3
    def inputs(self, ex, st):
        ex.loc_types = dict(ex.loc_types)
        q, k = z3.Const('q!vs', SEQS), z3.Int('k!vs')
        ex.axioms = list(ex.axioms) + [z3.ForAll([k], URE2(k), patterns=[URE2(k)]), z3.ForAll([q], ENTS(q, 0) == z3.Empty(z3.SeqSort(I)), patterns=[ENTS(q, 0)]),
                                       z3.ForAll([q, k], z3.Implies(k > 0, ENTS(q, k) == z3.Concat(ENTS(q, k - 1), z3.Unit(ENT(k, q[k - 1])))), patterns=[z3.MultiPattern(ENTS(q, k), URE2(k))])]
        st.store[VSET] = z3.Empty(z3.SeqSort(I)); ex.loc_types[VSET] = 'std::vector<int>'
        st.store[VLIST] = ListVal(z3.Const('vhosts', SEQS), 'std::string'); ex.loc_types[VLIST] = 'std::list<std::string>'
        st.assume(z3.Length(st.store[VLIST].seq) < 2**31 - 2)
        return None, [SymPtr(z3.Int('oi'), 'Z_OtherInformation *'), SymPtr(z3.Int('odr'), 'void'), VLIST]
    def upto(self, c, got, q, n): return z3.And(URE2(n), URE2(n + 1), got == ENTS(q, n))
    def ensures(self, c):
        q = c.old(VLIST).seq
        return [('sets each virtual host under its number, in order, and nothing else', self.upto(c, c.new(VSET), q, z3.Length(q))), ('the list is unchanged', c.new(VLIST).seq == q)]
    def invariants(self, L):
        out = []
        for n, lv, v in L._vals():
            if isinstance(v, IterVal):
                out.append(('hosts before %s are set' % n, lambda L, lv=lv: self.upto(L, L.peek(VSET), L.peek(VLIST).seq, L.cur.store[lv].idx)))
                for n2, lv2, v2 in L._vals():
                    if z3.is_expr(v2) and z3.is_int(v2): out.append(('%s is the number of the host at %s' % (n2, n), lambda L, lv=lv, lv2=lv2: L.cur.store[lv2] == L.cur.store[lv].idx + 1))
        return out


class SetVhost(SetVhosts):
    nparams = 4
    def inputs(self, ex, st):
        _, a = SetVhosts.inputs(self, ex, st)
        return None, a[:2] + [z3.String('vhost'), ex.fresh(st, 'int', 'cat')]
    def ensures(self, c): return [('sets that virtual host under that number', c.new(VSET) == z3.Unit(ENT(c.args[3], c.args[2])))]
    def invariants(self, L): return []


def oi_set(ex, s, this, a, n):
    ex.wr(s, VSET, z3.Concat(s.store[VSET], z3.Unit(ENT(a[3], ex.sval(s, a[4], n)))), n)
    return [(s, None)]


DBN, DBS, ZHOST = Loc(('db_num#',)), Loc(('db_strings#',)), Loc(('zhost#',))


class SetDbs(C):
    """databases of a target address as an array of names"""
    qname, nparams = U + 'set_databases_from_zurl', 4
    def inputs(self, ex, st):
        ex.axioms = list(ex.axioms) + spl_axioms()
        ex.loc_types = dict(ex.loc_types)
        self.z = z3.String('zurl'); st.assume(z3.Length(self.z) < 2**28)
        k = z3.Int('k!sp')
        ex.axioms += pkg.elem_axioms()
        ex.axioms.append(z3.ForAll([k], z3.Length(SPL(self.z, k)) <= z3.Length(self.z) + 1, patterns=[SPL(self.z, k)]))
        st.store[DBN] = ex.fresh(st, 'int', 'num0'); ex.loc_types[DBN] = 'int'
        st.store[DBS] = sz(st, 'dbs0', 'char *'); ex.loc_types[DBS] = 'char **'
        return None, [SymPtr(z3.Int('odr'), 'void'), self.z, LocPtr(DBN), LocPtr(DBS)]
    def has(self):
        o = ARGO(self.z)
        return z3.And(o >= 1, o < z3.Length(self.z), str_buf(self.z).rd(o) != 0)
    def want(self): return z3.If(self.has(), SPL(self.z, ARGO(self.z)), z3.Empty(SEQS))
    def upto(self, ex, st, n, q):
        k = z3.Int('k!db')
        b = t(st.store[DBS])
        e = pkg.ELEM(b, k)
        return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), cstr(arr(ex, st, 'char *', '', 'char *')[e]) == q[k]), patterns=[e])
    def ensures(self, c):
        q = self.want()
        n = z3.Length(q)
        if not isinstance(c.new(DBS), SymPtr): return [('gives an array', z3.BoolVal(False))]
        return [('true exactly if there are databases', c.ret == (n > 0)),
                ('gives their number', z3.Implies(c.ret, c.new(DBN) == n)),
                ('gives each name, in order', z3.Implies(c.ret, self.upto(c.ex, c.post, n, q))),
                ('changes nothing if there are none', z3.Implies(z3.Not(c.ret), z3.And(c.new(DBN) == c.old(DBN), t(c.new(DBS)) == t(c.old(DBS)))))]
    def invariants(self, L):
        out = SplitZurl.invariants(self, L) if DB in L.cur.store else []
        out = []
        for n, lv, v in L._vals():
            if isinstance(v, IterVal):
                out.append(('names before %s are given' % n, lambda L, lv=lv: self.upto(L.ex, L.cur, L.cur.store[lv].idx, L.peek(L.cur.store[lv].lv).seq)))
                for n2, lv2, v2 in L._vals():
                    if z3.is_expr(v2) and z3.is_int(v2): out.append(('%s is the number of the name at %s' % (n2, n), lambda L, lv=lv, lv2=lv2: L.cur.store[lv2] == L.cur.store[lv].idx))
        return out


class SplitZurlC(SplitZurl):
    """the contract of split_zurl, used by its callers"""
    standalone = False
    assumed = True
    def byref(self, i): return i > 0
    def modifies(self, c): return [c.args[1], c.args[2]]
    def ensures(self, c):
        z = c.args[0] if z3.is_expr(c.args[0]) else c.old(c.args[0])
        o = ARGO(z)
        has = z3.And(o >= 1, o < z3.Length(z), str_buf(z).rd(o) != 0)
        h, d = c.args[1], c.args[2]
        return [('host', c.new(h) == z3.If(has, z3.SubString(z, 0, o - 1), z)), ('databases', c.new(d).seq == z3.If(has, z3.Concat(c.old(d).seq, SPL(z, o)), c.old(d).seq))]


def heap_fact(ex):
    MAND = {('Z_SearchRequest', f) for f in ('smallSetUpperBound', 'largeSetLowerBound', 'mediumSetPresentNumber')}
    MAND |= {('Z_DefaultDiagFormat', 'condition'), ('Z_HTTP_Request', 'version'), ('Z_HTTP_Request', 'method'), ('Z_HTTP_Request', 'path')}
    def f(st, lv, ctype, v):
        k = lv.key()
        if kind(ctype) == 'ptr': st.assume(v < st.alloc)
        if k in MAND: st.assume(v > 0)
        if k[1].startswith('u.') and kind(ctype) == 'ptr' and k[0] in WHICH:
            w = WHICH[k[0]].get(k[1][2:])
            if w is not None: st.assume(z3.Implies(ex.heap_arr(st, (k[0], 'which'), 'int')[lv.term] == w, v > 0))
    return f


WHICH = {'Z_APDU': {k: v for k, v in KINDS.items()}, 'Z_RecordComposition': dict(simple=1, complex=2), 'Z_ElementSetNames': dict(generic=1), 'Z_ElementSpec': dict(elementSetName=1), 'Z_GDU': dict(z3950=1, HTTP_Request=2, HTTP_Response=3),
         'Z_DefaultDiagFormat': dict(v2Addinfo=1, v3Addinfo=2)}


def install(ex):
    ex.heap_types = {}
    ex.axioms = list(ex.axioms)
    ex.heap_fact = heap_fact(ex)
    pkg.install(ex)
    ex.externs['odr_createmem'] = lambda ex, s, this, a, n: [(s, ex.new_object(s, 'void'))]
    ex.externs['memcpy'], ex.externs['yaz_oi_set_string_oid'] = memcpy, oi_set
    def strdup(ex, s, this, a, n):
        p = ex.new_object(s, 'char')
        s.assume(cstr(p.term) == ex.sval(s, a[1], n))
        return [(s, p)]
    ex.externs['odr_strdup'] = strdup
    E = ex.externs
    E['zget_APDU'], E['odr_create_Odr_oct'], E['odr_prepend'] = zget, octs, prepend
    E['zget_DefaultDiagFormat'], E['zget_DiagRec'], E['zget_init_diagnostics'] = diag('Z_DefaultDiagFormat'), diag('Z_DiagRec'), diag('Z_External')
    E['z_HTTP_header_lookup'], E['z_get_HTTP_Response_server'], E['z_HTTP_header_add'] = hlookup, hserver, hadd
    oc = E['strchr']
    E['strchr'] = lambda ex, s, this, a, n: strchr_spec(ex, s, this, a, n, oc)
    E['cs_get_host_args'], E['memcmp'], E['yaz_match_glob'], E['split'] = host_args, memcmp, glob, bsplit
    E['is_any_of'] = lambda ex, s, this, a, n: [(s, Opaque('blank'))]
    E['yaz_oi_get_string_oid'] = oi_get
    arrays = E['#symindex']
    def symindex(ex, s, p, ix, n):
        ix = simp(ix)
        if z3.is_int_value(ix) and ix.as_long() == 0: return ex.deref(s, p, n)
        return arrays(ex, s, p, ix, n)
    E['#symindex'] = symindex


PIGGY = [RecComp(), Piggy(), PiggyNo(), Piggy5(), PiggySr(), PiggyComp()]
REF = [GetRef(), Transfer(), CreateApdu(), CreateSearch(), CreatePresent(), CreateInit(), CreateScan(), CreateClose()]
HTTP = [HeaderValue(), HttpResp(), HttpResp3(), HttpResponse()]
TEXT = [Normalize(), Match(), Memcmp2(), SplitZurl(), MatchIp(), DefaultDiag(), Vhosts(), SetVhosts(), SetVhost(), SetDbs(), SplitZurlC()]
CONTRACTS = PIGGY + REF + HTTP + TEXT
UNITS = [('src/util.cpp', CONTRACTS, install)]

"""Model of metaproxy::Package and yazpp's GDU for the filters' contracts.

A GDU owns a deep copy: assigning a record to it stores the pointer together
with a snapshot of the heap ("frozen"), so later changes of the source do not
show.  Moving a package on is an arbitrary action of the rest of the chain:
`ex.on_move` says what is known of it and what must hold before it."""
import z3
from vcx.core import *

I, St, Bo = z3.IntSort(), z3.StringSort(), z3.BoolSort()
PKG = Loc(('package#',))
GREQ, GRES = 'm_request_gdu', 'm_response_gdu'
ASSUME = ['yazpp::GDU owns a deep copy of the record it is given; get() returns it',
          'moving a package on may set its response and close its session; it does not touch the records of the filter that moved it']
ELEM = z3.Function('elem', I, I, I)          # address of element i of an array of records
EBASE, EIDX = z3.Function('elem_base', I, I), z3.Function('elem_index', I, I)
BYTES = z3.Function('allocated_bytes', I, I)
OWN = z3.Function('owner', I, I)             # 0: our own records, k: the k-th response received, -1: the request
NEWFOR = z3.Function('created_for', I, I)    # request an APDU was created for (contract of odr::create_APDU, C15)
ROUTE, ORIG = '#route', '#origin'


def elem_axioms():
    b, i = z3.Ints('b!e i!e')
    return [z3.ForAll([b, i], z3.And(EBASE(ELEM(b, i)) == b, EIDX(ELEM(b, i)) == i, ELEM(b, i) > 0), patterns=[ELEM(b, i)])]


def package(ex, st, P, name, request=True):
    """a package as a filter gets it"""
    ex.loc_types = dict(ex.loc_types)
    types(ex, P)
    st.store[P.sub('m_session').sub('m_close')] = z3.Bool(name + '.closed')
    st.store[P.sub('m_session').sub('m_id')] = ex.fresh(st, 'unsigned long', name + '.session')
    st.store[P.sub(ORIG)] = z3.Int(name + '.origin'); st.store[P.sub(ROUTE)] = z3.Int(name + '.route')
    st.store[P.sub('#moves')] = z3.IntVal(0)
    g = z3.Int(name + '.request')
    st.assume(g >= 0, g < st.alloc, OWN(g) == -1)
    st.store[P.sub(GREQ).sub('m_gdu')] = SymPtr(g, 'Z_GDU')
    st.store[P.sub(GRES).sub('m_gdu')] = SymPtr(z3.IntVal(0), 'Z_GDU')
    return P


def types(ex, P):
    T = ex.loc_types
    T[P] = 'metaproxy_1::Package'
    T[P.sub('m_session')] = 'metaproxy_1::Session'
    T[P.sub('m_session').sub('m_close')] = 'bool'; T[P.sub('m_session').sub('m_id')] = 'unsigned long'
    for g in (GREQ, GRES):
        T[P.sub(g)] = 'yazpp_1::GDU'; T[P.sub(g).sub('m_gdu')] = 'Z_GDU *'


def gduval(ex, s, v, n):
    """contents of a GDU holding a copy of record v"""
    if isinstance(v, Null) or z3.is_expr(v):
        return StructVal('yazpp_1::GDU', {('m_gdu',): SymPtr(z3.IntVal(0), 'Z_GDU')})
    if not isinstance(v, SymPtr): raise Unsupported('GDU of %r' % (v,), n, ex)
    if shortrec(v.ctype) == 'Z_APDU' or 'Z_APDU' in v.ctype:
        g = ex.new_object(s, 'Z_GDU')
        ex.wr(s, HLoc('Z_GDU', g.term, ('which',)), z3.IntVal(1), n, 'int')
        ex.wr(s, HLoc('Z_GDU', g.term, ('u', 'z3950')), v, n, 'Z_APDU *')
        v = g
    f = {('m_gdu',): SymPtr(v.term, 'Z_GDU')}
    for k, a in s.heap.items(): f[('#%s|%s' % k,)] = a
    f[('#frozen',)] = z3.BoolVal(True)
    return StructVal('yazpp_1::GDU', f)


def frozen(ex, st, G, rec, f, ty='int'):
    """heap array of a field as a GDU's record sees it"""
    k = Loc(G + ('#%s|%s' % (rec, f),))
    if k in st.store: return st.store[k]
    ex.heap_types.setdefault((rec, f), ty)
    if Loc(G + ('#frozen',)) in st.store:
        return z3.Const('H.%s.%s' % (shortrec(rec), f), z3.ArraySort(I, ex.sort(ty)))
    return ex.heap_arr(st, (rec, f), ty)


def gptr(st, G):
    v = st.store.get(G.sub('m_gdu'))
    return v.term if isinstance(v, SymPtr) else z3.IntVal(0)


class View:
    """record graph a GDU holds: view['Z_GDU', 'which', ptr]"""
    def __init__(self, ex, st, G): self.ex, self.st, self.G = ex, st, G
    def root(self): return gptr(self.st, self.G)
    def __call__(self, rec, f, p, ty='int'): return frozen(self.ex, self.st, self.G, rec, f, ty)[p]


def response_of(ex, s, P, k):
    """an arbitrary response, owned by nobody here"""
    g = ex.fresh(s, 'int', 'response'); g = z3.Int(fresh_name('response'))
    a = z3.Int(fresh_name('alloc'))
    s.assume(g >= 0, a >= s.alloc, g < a, z3.Implies(g != 0, OWN(g) == k))
    s.alloc = a
    ex.wr(s, P.sub(GRES), StructVal('yazpp_1::GDU', {('m_gdu',): SymPtr(g, 'Z_GDU')}), None)


def install(ex):
    M = ex.methods
    def part(f):
        def g(ex, s, o, a, n):
            types_once(ex, o)
            return [(s, o.sub(f))]
        return g
    def types_once(ex, o):
        if o.sub(GREQ) not in ex.loc_types:
            ex.loc_types = dict(ex.loc_types); types(ex, o)
    for nm, f in (('request', GREQ), ('response', GRES), ('session', 'm_session'), ('origin', ORIG)): M[('Package', nm)] = part(f)
    def get(ex, s, o, a, n):
        if o.sub('#frozen') in s.store: raise Unsupported('reading back a record just stored in a package', n, ex)
        v = s.store.get(o.sub('m_gdu'))
        return [(s, v if v is not None else SymPtr(z3.IntVal(0), 'Z_GDU'))]
    M[('GDU', 'get')] = get
    def gctor(ex, s, t, vs, n):
        if not vs: return [(s, StructVal(t, {('m_gdu',): SymPtr(z3.IntVal(0), 'Z_GDU')}))]
        v = vs[0]
        if isinstance(v, StructVal): return [(s, v)]
        if isinstance(v, (Loc,)) and (v.sub('m_gdu') in s.store): return [(s, gcopy(s, v))]
        return [(s, gduval(ex, s, ex.rd(s, v, n) if is_lv(v) else v, n))]
    M[('GDU', 'ctor')] = gctor
    def gcopy(s, g):
        f = {k[len(g):]: v for k, v in s.store.items() if len(k) > len(g) and k[:len(g)] == g}
        if ('#frozen',) not in f:
            for k, a in s.heap.items(): f[('#%s|%s' % k,)] = a
            f[('#frozen',)] = z3.BoolVal(True)
        return StructVal('yazpp_1::GDU', f)
    def gasg(ex, s, o, a, n):
        v = a[0]
        if isinstance(v, LocPtr): v = v.lv
        if is_lv(v): v = gcopy(s, v)
        if not isinstance(v, StructVal): v = gduval(ex, s, v, n)
        ex.wr(s, o, v, n)
        return [(s, o)]
    M[('GDU', 'operator=')] = gasg
    # sessions
    cl = lambda o: o.sub('m_close')
    M[('Session', 'is_closed')] = lambda ex, s, o, a, n: [(s, ex.rd(s, cl(o), n))]
    def close(ex, s, o, a, n):
        ex.wr(s, cl(o), z3.BoolVal(True), n)
        return [(s, None)]
    M[('Session', 'close')] = close
    M[('Session', 'id')] = lambda ex, s, o, a, n: [(s, ex.rd(s, o.sub('m_id'), n))]
    def pctor(ex, s, t, vs, n):
        f = {('m_session', 'm_close'): z3.BoolVal(False), ('m_session', 'm_id'): z3.IntVal(0), (ORIG,): z3.IntVal(0), (ROUTE,): z3.IntVal(0), ('#moves',): z3.IntVal(0)}
        if len(vs) == 2:
            f[('m_session', 'm_close')], f[('m_session', 'm_id')] = ex.rd(s, vs[0].sub('m_close'), n), ex.rd(s, vs[0].sub('m_id'), n)
            f[(ORIG,)] = ex.rd(s, vs[1], n) if is_lv(vs[1]) else vs[1]
        f[(GREQ, 'm_gdu')] = f[(GRES, 'm_gdu')] = SymPtr(z3.IntVal(0), 'Z_GDU')
        return [(s, StructVal(t, f))]
    M[('Package', 'ctor')] = pctor
    def route(ex, s, o, a, n):
        src = a[0]
        ex.wr(s, o.sub(ROUTE), ex.rd(s, src.sub(ROUTE), n), n)
        return [(s, o)]
    M[('Package', 'copy_filter')] = M[('Package', 'copy_route')] = route
    def move(ex, s, o, a, n):
        types_once(ex, o)
        ex.wr(s, o.sub('#moves'), s.store.get(o.sub('#moves'), z3.IntVal(0)) + 1, n)
        return ex.on_move(ex, s, o, a, n)
    M[('Package', 'move')] = move
    for nm in ('log', 'log_enable', 'log_write', 'log_reset'): M[('Package', nm)] = lambda ex, s, o, a, n: [(s, None)]
    if not hasattr(ex, 'on_move'): ex.on_move = passed_on
    # records in arrays
    def symindex(ex, s, p, ix, n):
        ix = simp(ix)
        w = ex.sizeof(p.ctype) if hasattr(ex, 'sizeof') else 8
        ex.require(s, p.term != 0, 'no null dereference', n)
        ex.require(s, z3.And(ix >= 0, (ix + 1) * w <= BYTES(p.term)), 'element inside its array', n)
        return HLoc(hrec(p.ctype), ELEM(p.term, ix), ())
    ex.externs['#symindex'] = symindex
    def malloc(ex, s, this, a, n):
        ex.require(s, a[1] >= 0, 'size of memory asked for is not negative', n)
        p = ex.new_object(s, 'void')
        s.assume(BYTES(p.term) == a[1], OWN(p.term) == 0)
        return [(s, p)]
    ex.externs['odr_malloc'] = malloc


def passed_on(ex, s, P, a, n):
    """the package goes to the rest of the chain, which may do anything with it"""
    ex.wr(s, P.sub('m_session').sub('m_close'), z3.Or(ex.rd(s, P.sub('m_session').sub('m_close'), n), z3.Bool(fresh_name('closed by chain'))), n)
    response_of(ex, s, P, z3.Int(fresh_name('source')))
    return [(s, None)]

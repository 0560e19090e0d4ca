"""Contracts for src/package.cpp.

Positions (RoutePos) are owned by exactly one package; their state is a ghost
number on the heap, moving one is an unspecified function of state and route."""
import z3
from vcx.core import *

I, St, Bo = z3.IntSort(), z3.StringSort(), z3.BoolSort()
S = z3.StringVal
P = 'metaproxy_1::Package::'
THIS, OTHER, ROUTER = Loc(('this',)), Loc(('other#',)), Loc(('router#',))
PROC = Loc(('filters that got the package#',))
STEP_F, STEP_S = z3.Function('filter_handed_out', I, I, I), z3.Function('position_after', I, I, I)
ROUTE = z3.Function('route_argument', St, I)       # > 0 for a name, 0 for "no route"
FIRST = z3.Function('start_of', I, I)
STATE, ALIVE = ('RoutePos', '#state'), ('RoutePos', '#alive')
POS, LOGGER = 'm_route_pos', 'p_logger'
SIDE = ('m_session.m_id', 'm_session.m_close')
ASSUME = ['a position belongs to one package alone (packages are not copied)', 'positions and filters are used through their virtual functions; a filter that gets a package is recorded, what it does is its own contract']


def H(st, k): return st.heap[k]


class C(Contract):
    standalone = True
    is_method = True
    def byref(self, i): return True
    def pkg(self, ex, st, lv, name):
        T = ex.loc_types
        T[lv] = 'metaproxy_1::Package'
        T[lv.sub(POS)] = 'metaproxy_1::RoutePos *'; T[lv.sub(LOGGER)] = 'boost::shared_ptr<PackageLogger>'
        T[lv.sub('m_session').sub('m_close')] = 'bool'; T[lv.sub('m_session').sub('m_id')] = 'unsigned long'
        T[lv.sub('m_request_gdu').sub('m_gdu')] = T[lv.sub('m_response_gdu').sub('m_gdu')] = 'Z_GDU *'
        p = z3.Int(name + '.pos'); st.assume(p >= 0, p < st.alloc, z3.Implies(p != 0, H(st, ALIVE)[p]))
        st.store[lv.sub(POS)] = SymPtr(p, 'RoutePos')
        l = z3.Int(name + '.logger'); st.assume(l >= 0, l < st.alloc)
        st.store[lv.sub(LOGGER)] = SymPtr(l, 'PackageLogger')
        st.store[lv.sub('m_session').sub('m_close')] = z3.Bool(name + '.closed'); st.store[lv.sub('m_session').sub('m_id')] = ex.fresh(st, 'unsigned long', name + '.id')
        for g in ('m_request_gdu', 'm_response_gdu'):
            st.store[lv.sub(g).sub('m_gdu')] = SymPtr(z3.Int(name + '.' + g), 'Z_GDU')
        return lv
    def inputs(self, ex, st):
        ex.loc_types = dict(ex.loc_types)
        ex.heap_types.update({STATE: 'int', ALIVE: 'bool', ('PackageLogger', 'str'): 'std::string'})
        st.heap[STATE] = z3.Const('H.RoutePos.state', z3.ArraySort(I, I)); st.heap[ALIVE] = z3.Const('H.RoutePos.alive', z3.ArraySort(I, Bo))
        ex.loc_types[PROC] = 'std::vector<int>'; st.store[PROC] = z3.Empty(z3.SeqSort(I))
        self.pkg(ex, st, THIS, 'this')
        x = z3.String('x!r')
        ex.axioms = list(ex.axioms) + [z3.ForAll([x], z3.And(ROUTE(x) >= 0, (ROUTE(x) == 0) == (x == S(''))), patterns=[ROUTE(x)])]
        return THIS, self.args(ex, st)
    def args(self, ex, st): return []
    def pos(self, st, lv=THIS):
        v = st.store.get(lv.sub(POS))
        return v.term if isinstance(v, SymPtr) else z3.IntVal(0)
    def logger(self, st, lv=THIS):
        v = st.store.get(lv.sub(LOGGER))
        return v.term if isinstance(v, SymPtr) else z3.IntVal(0)
    def rest(self, c, lv=THIS):
        ks = [lv.sub('m_session').sub('m_close'), lv.sub('m_session').sub('m_id')]
        gs = [lv.sub(g).sub('m_gdu') for g in ('m_request_gdu', 'm_response_gdu')]
        return z3.And(*[c.new(k) == c.old(k) for k in ks], *[c.new(g).term == c.old(g).term for g in gs])
    def nothing(self, c): return ('no filter gets the package', c.new(PROC) == z3.Empty(z3.SeqSort(I)))


class Copy(C):
    qname, nparams = P + 'copy_route', 1
    log = False
    def args(self, ex, st):
        self.pkg(ex, st, OTHER, 'other')
        a, b = self.pos(st), self.pos(st, OTHER)
        st.assume(z3.Or(a == 0, a != b))
        return [OTHER]
    src = OTHER
    def ensures(self, c):
        p, q0, q1, o = self.pos(c.post), self.pos(c.pre, self.src), self.pos(c.post, self.src), self.pos(c.pre)
        al, s1, s0 = H(c.post, ALIVE), H(c.post, STATE), H(c.pre, STATE)
        out = [('has a position exactly if the source has one', (p == 0) == (q0 == 0)),
               ('its position is where the source is', z3.Implies(q0 != 0, z3.And(al[p], s1[p] == s0[q0]))), self.nothing(c),
               ('session, request and response are left alone', self.rest(c))]
        if self.src is OTHER:
            out += [('the position is its own', z3.Implies(p != 0, p != q1)),
                    ('the source keeps its position', z3.And(q1 == q0, z3.Implies(q0 != 0, z3.And(al[q0], s1[q0] == s0[q0])))),
                    ('the old position is given up', z3.Implies(o != 0, z3.Not(al[o])))]
        lg = self.logger(c.post)
        out.append(('the logger is that of the source', lg == self.logger(c.pre, self.src)) if self.log else ('the logger is left alone', lg == self.logger(c.pre)))
        return out


class CopySelf(Copy):
    label = 'from itself'
    src = THIS
    def args(self, ex, st): return [THIS]


class CopyFilter(Copy):
    qname, nparams, log = P + 'copy_filter', 1, True
    def ensures(self, c): return Copy.ensures(self, c) + [('returns the package', z3.BoolVal(c.ret == THIS))]


class Move(C):
    qname, nparams = P + 'move', 0
    def how(self, c): return z3.IntVal(0)
    def ensures(self, c):
        p, q = self.pos(c.pre), self.pos(c.post)
        s0, s1 = H(c.pre, STATE)[p], H(c.post, STATE)[p]
        m = self.how(c)
        f = STEP_F(s0, m)
        e = z3.Empty(z3.SeqSort(I))
        return [('the next filter of the route gets the package, once; none at the end', c.new(PROC) == z3.If(p == 0, e, z3.If(f == 0, e, z3.Unit(f)))),
                ('the position is moved once', z3.And(q == p, z3.Implies(p != 0, s1 == STEP_S(s0, m)))),
                ('session, request and response are left alone', self.rest(c))]


class MoveTo(Move):
    nparams = 1
    def args(self, ex, st):
        r = z3.String('route'); st.assume(z3.Not(z3.Contains(r, S('\x00'))), z3.Length(r) < 2**60)
        return [r]
    def how(self, c): return ROUTE(c.args[0])


class RouterOf(C):
    qname, nparams = P + 'router', 1
    def args(self, ex, st):
        ex.loc_types[ROUTER.sub('#id')] = 'int'
        st.store[ROUTER.sub('#id')] = z3.Int('router')
        return [ROUTER]
    def ensures(self, c):
        p, o = self.pos(c.post), self.pos(c.pre)
        return [('the package is at the start of the router', z3.And(p != 0, H(c.post, ALIVE)[p], H(c.post, STATE)[p] == FIRST(z3.Int('router')))),
                ('the old position is given up', z3.Implies(o != 0, z3.Not(H(c.post, ALIVE)[o]))), self.nothing(c),
                ('session, request and response are left alone', self.rest(c)), ('returns the package', z3.BoolVal(c.ret == THIS))]


class Part(C):
    field = None
    def ensures(self, c): return [('gives the %s of the package itself' % self.nm, z3.BoolVal(c.ret == THIS.sub(self.field)))]


class Request(Part): qname, nparams, field, nm = P + 'request', 0, 'm_request_gdu', 'request'
class Response(Part): qname, nparams, field, nm = P + 'response', 0, 'm_response_gdu', 'response'


class LogWrite(C):
    qname, nparams = P + 'log_write', 2
    def args(self, ex, st):
        x, n = z3.String('text'), z3.Int('size')
        st.assume(n >= 0, n <= z3.Length(x), z3.Length(x) < 2**31)
        return [BufPtr(str_buf(x), z3.IntVal(0)), n]
    def ensures(self, c):
        l = self.logger(c.pre)
        h0, h1 = [c.ex.heap_arr(s, ('PackageLogger', 'str')) for s in (c.pre, c.post)]
        return [('the text is added to the log of the package if it has one', h1 == z3.If(l == 0, h0, z3.Store(h0, l, z3.Concat(h0[l], z3.SubString(z3.String('text'), 0, c.args[1])))))]


class LogReset(C):
    qname, nparams = P + 'log_reset', 1
    RES = Loc(('result#',))
    def args(self, ex, st):
        ex.loc_types[self.RES] = 'std::string'; st.store[self.RES] = z3.String('before')
        return [self.RES]
    def ensures(self, c):
        l = self.logger(c.pre)
        return [('gives the text logged, and leaves the result alone if nothing was', c.new(self.RES) == z3.If(l == 0, c.old(self.RES), c.ex.heap_arr(c.pre, ('PackageLogger', 'str'))[l])),
                ('logging is off afterwards', self.logger(c.post) == 0)]


def install(ex):
    ex.heap_types = {}
    M = ex.methods
    def obj(ex, s, o, n):
        if isinstance(o, HLoc): return o.term
        v = ex.rd(s, o, n) if is_lv(o) else o
        if isinstance(v, SymPtr): return v.term
        raise Unsupported('call on %r' % (o,), n, ex)
    def setg(s, k, p, v): s.heap[k] = z3.Store(s.heap[k], p, v); s.writes = s.writes | {('heap',) + k}
    def live(ex, s, p, n): ex.require(s, s.heap[ALIVE][p], 'the position exists', n)
    def clone(ex, s, o, a, n):
        p = obj(ex, s, o, n); live(ex, s, p, n)
        q = ex.new_object(s, 'RoutePos')
        setg(s, STATE, q.term, s.heap[STATE][p]); setg(s, ALIVE, q.term, z3.BoolVal(True))
        return [(s, q)]
    def move(ex, s, o, a, n):
        p = obj(ex, s, o, n); live(ex, s, p, n)
        v = a[0]
        if isinstance(v, Null) or z3.is_expr(v) and z3.is_int_value(v): m = z3.IntVal(0)
        elif isinstance(v, BufPtr): m = z3.If(v.null, z3.IntVal(0), ROUTE(ex.to_string(v))) if not z3.is_false(v.null) else ROUTE(ex.to_string(v))
        else: raise Unsupported('move to %r' % (v,), n, ex)
        if isinstance(v, BufPtr):
            # an empty name is a name for the router: it must be given as no route
            ex.require(s, z3.Or(v.null, ROUTE(ex.to_string(v)) != 0), 'an empty route name means no route', n)
        st = s.heap[STATE][p]
        f = STEP_F(st, m)
        s.assume(f >= 0)
        setg(s, STATE, p, STEP_S(st, m))
        return [(s, SymPtr(f, 'metaproxy_1::filter::Base'))]
    M[('RoutePos', 'clone')], M[('RoutePos', 'move')] = clone, move
    def process(ex, s, o, a, n):
        ex.require(s, z3.BoolVal(a[0] == THIS), 'the filter gets this package', n)
        ex.wr(s, PROC, z3.Concat(s.store[PROC], z3.Unit(obj(ex, s, o, n))), n)
        return [(s, None)]
    M[('Base', 'process')] = process
    def create(ex, s, o, a, n):
        q = ex.new_object(s, 'RoutePos')
        setg(s, STATE, q.term, FIRST(ex.rd(s, o.sub('#id'), n))); setg(s, ALIVE, q.term, z3.BoolVal(True))
        return [(s, q)]
    M[('Router', 'createpos')] = create
    def delete(ex, s, v, n):
        v = ex.rd(s, v, n) if is_lv(v) else v
        if isinstance(v, Null): return [(s, None)]
        if not isinstance(v, SymPtr): raise Unsupported('delete of %r' % (v,), n, ex)
        ex.require(s, z3.Or(v.term == 0, s.heap[ALIVE][v.term]), 'deleted once only', n)
        setg(s, ALIVE, v.term, z3.BoolVal(False))
        return [(s, None)]
    ex.externs['#delete'] = delete


CONTRACTS = [Copy(), CopySelf(), CopyFilter(), Move(), MoveTo(), RouterOf(), Request(), Response(), LogWrite(), LogReset()]
UNITS = [('src/package.cpp', CONTRACTS, install)]

"""Contracts for src/router_flexml.cpp."""
import z3
from vcx.core import *
from . import chain
from .chain import LOG, SIG, SEQ, calls, called, rest_axioms

I, Bo, St = z3.IntSort(), z3.BoolSort(), z3.StringSort()
S = z3.StringVal
NS = 'metaproxy_1::'
REP, THIS = Loc(('rep#',)), Loc(('this',))
ROUTES, START, IDS = REP.sub('m_routes'), REP.sub('m_start_route'), REP.sub('m_id_filter_map')
RT = NS + 'RouterFleXML::Route'
FT = 'boost::shared_ptr<const metaproxy_1::filter::Base>'
LKEY = (RT, 'm_list')
KEYS = z3.Function('keys_in_order', z3.ArraySort(St, Bo), z3.SeqSort(St))
k = z3.Const('k!r', St)
i = z3.Int('i!r')


def lists(ex, st): return ex.heap_arr(st, LKEY, 'std::list<%s>' % FT)
def routes(st): return st.store[ROUTES]


def setup_rep(ex, st):
    ex.loc_types = dict(ex.loc_types)
    ex.loc_types[ROUTES] = 'std::map<std::string, %s>' % RT
    m = st.store[ROUTES] = MapVal(z3.Const('routes.dom', z3.ArraySort(St, Bo)), z3.Const('routes.val', z3.ArraySort(St, I)), 'std::string', RT)
    st.store[START] = z3.Const('start_route', St)
    A = lists(ex, st)
    st.assume(z3.ForAll([k], z3.Implies(m.dom[k], m.val[k] > 0), patterns=[m.val[k]]))
    st.assume(z3.ForAll([i], z3.Length(A[i]) < 2**60, patterns=[A[i]]))
    return m


class C(Contract):
    standalone = is_method = True
    def byref(self, i): return True
    def keep(self, c):
        a, b = c.old(ROUTES), c.new(ROUTES)
        return [('the routes are unchanged', z3.And(a.dom == b.dom, a.val == b.val, lists(c.ex, c.pre) == lists(c.ex, c.post)))]


class Pos(C):
    def inputs(self, ex, st):
        this = Loc(('pos#',))
        m = setup_rep(ex, st)
        key, ix = z3.Const('route_at', St), z3.Int('filter_at')
        l = lists(ex, st)[m.val[key]]
        st.assume(m.dom[key], ix >= 0, ix <= z3.Length(l))
        st.store[this.sub('m_route_it')] = MapIter(ROUTES, key, z3.BoolVal(False))
        st.store[this.sub('m_filter_it')] = IterVal(HLoc(RT, m.val[key], ('m_list',)), ix)
        st.store[this.sub('m_p')] = LocPtr(REP)
        self.key, self.ix, self.m = key, ix, m
        return this, self.args(ex, st)
    def args(self, ex, st): return []


def at(c, pos, key, ix, lab):
    """position pos is at filter ix of route key"""
    r, f = c.post.store.get(pos.sub('m_route_it')), c.post.store.get(pos.sub('m_filter_it'))
    m = c.new(ROUTES)
    if not isinstance(r, MapIter) or not isinstance(f, IterVal) or r.lv != ROUTES or not isinstance(f.lv, HLoc) or f.lv.key() != LKEY:
        return [(lab, z3.BoolVal(False))]
    return [(lab, z3.And(z3.Not(r.end), r.key == key, f.lv.term == m.val[key], f.idx == ix))]


class Move(Pos):
    qname, nparams = NS + 'RouterFleXML::Pos::move', 1
    def args(self, ex, st):
        self.cs, self.null = z3.Const('route', St), z3.Bool('route_null')
        b = str_buf(self.cs)
        j = z3.Int('j!n')
        st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < z3.Length(self.cs)), b.rd(j) != 0)), z3.Implies(z3.Length(self.cs) > 0, b.rd(z3.IntVal(0)) != 0))
        return [BufPtr(b, z3.IntVal(0), self.null)]
    def ensures(self, c):
        cs = self.cs
        named = z3.And(z3.Not(self.null), z3.Length(cs) > 0)
        unknown = z3.And(named, z3.Not(self.m.dom[cs]))
        key = z3.If(z3.And(named, self.m.dom[cs]), cs, self.key)
        ix = z3.If(z3.And(named, self.m.dom[cs]), z3.IntVal(0), self.ix)
        l = lists(c.ex, c.pre)[self.m.val[key]]
        r = c.ret.term if isinstance(c.ret, SymPtr) else z3.IntVal(0) if isinstance(c.ret, Null) or z3.is_int_value(c.ret) else z3.IntVal(-1)
        end = ix == z3.Length(l)
        return [('hands out the filter at the position, none at the end of the route or for an unknown route', r == z3.If(z3.Or(unknown, end), z3.IntVal(0), l[ix]))] + \
            at(c, c.this, key, z3.If(z3.Or(unknown, end), ix, ix + 1), 'stands after the filter handed out, where it was for an unknown route') + self.keep(c)


class Clone(Pos):
    qname, nparams = NS + 'RouterFleXML::Pos::clone', 0
    def ensures(self, c):
        if not isinstance(c.ret, LocPtr) or c.ret.lv == c.this: return [('returns a new position', z3.BoolVal(False))]
        mp = c.post.store.get(c.ret.lv.sub('m_p'))
        return [('the copy belongs to the same router', z3.BoolVal(isinstance(mp, LocPtr) and mp.lv == REP))] + \
            at(c, c.ret.lv, self.key, self.ix, 'the copy is where the original is') + at(c, c.this, self.key, self.ix, 'the original does not move') + self.keep(c)


class Router(C):
    def inputs(self, ex, st):
        self.m = setup_rep(ex, st)
        st.store[THIS.sub('m_p')] = LocPtr(REP)
        return THIS, self.args(ex, st)
    def args(self, ex, st): return []


class CreatePos(Router):
    qname, nparams = NS + 'RouterFleXML::createpos', 0
    def ensures(self, c):
        m, sr = self.m, c.old(START)
        if not isinstance(c.ret, LocPtr): return [('only without the start route there is no position', z3.Not(m.dom[sr]))]
        mp = c.post.store.get(c.ret.lv.sub('m_p'))
        return [('there is a start route', m.dom[sr]), ('the position belongs to this router', z3.BoolVal(isinstance(mp, LocPtr) and mp.lv == REP))] + \
            at(c, c.ret.lv, sr, z3.IntVal(0), 'the position is at the first filter of the start route') + self.keep(c)


CA = z3.Function('filters_of_routes_from', I, SEQ)     # concatenated filters of the routes from the i-th on (by name)


class StartStop(Router):
    sig = False
    def inputs(self, ex, st):
        r = Router.inputs(self, ex, st)
        st.store[LOG] = z3.Empty(SEQ)
        if self.sig: st.store[SIG] = r[1][0]
        d, v, A = self.m.dom, self.m.val, lists(ex, st)
        at, nk = keyat(d), nkeys(d)
        st.assume(z3.ForAll([i], z3.Implies(i >= nk(d), CA(i) == z3.Empty(SEQ)), patterns=[CA(i)]),
                  z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nk(d)), CA(i) == z3.Concat(A[v[at(d, i)]], CA(i + 1))), patterns=[z3.MultiPattern(CA(i), at(d, i))]))
        return r
    def ensures(self, c):
        return [('reaches the filters of every route, in order', c.new(LOG) == CA(0))] + self.keep(c)
    def invariants(self, L):
        out = []
        for n, lv, v in L.all_vals():
            if isinstance(v, MapIter) and v.idx is not None:
                out.append(('filters of the routes before %s were called' % n, lambda L, lv=lv: z3.Concat(L.peek(LOG), CA(L.cur.store[lv].idx)) == CA(0)))
            if isinstance(v, IterVal):
                out.append(('filters before %s were called' % n, lambda L, lv=lv: called(L, L.peek(LOG), L.ex.rd_peek(L.cur, L.cur.store[lv].lv).seq, L.cur.store[lv].idx)))
        return out


class Start(StartStop):
    qname, nparams = NS + 'RouterFleXML::start', 0


class Stop(StartStop):
    qname, nparams, sig = NS + 'RouterFleXML::stop', 1, True
    def args(self, ex, st): return [ex.fresh(st, 'int', 'signo')]


def pos_install(ex):
    ex.heap_types = {LKEY: 'std::list<%s>' % FT}
    calls(ex)
    ex.axioms += rest_axioms()
    ex.elem_inv = lambda et, t: t > 0 if 'filter::Base' in et else None


UNITS = [('src/router_flexml.cpp', [Move(), Clone(), CreatePos(), Start(), Stop()], pos_install)]

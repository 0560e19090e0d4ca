"""Contracts for the configuration reader of src/router_flexml.cpp.  The rules
are recursive functions over the element tree (one equation per function,
unfolded where the loop invariants mark it); document order (ORD) and the end
of a sibling list (LEND) show that no element is used twice."""
import itertools
import z3
from vcx.core import *
from . import xmlheap as X
from .xmlheap import *
from . import xmlutil as XU
from .xmlutil import sym

NS = 'metaproxy_1::'
REP = Loc(('rep#',))
ROUTES, START, IDS, DLP, FAC = [REP.sub(f) for f in ('m_routes', 'm_start_route', 'm_id_filter_map', 'm_dl_path', 'm_factory')]
ROUTE = Loc(('route#',))
RT = NS + 'RouterFleXML::Route'
FT = 'boost::shared_ptr<const metaproxy_1::filter::Base>'
SEQ = z3.SeqSort(I)
SET, MAPF, MAPR = z3.ArraySort(St, Bo), z3.ArraySort(St, I), z3.ArraySort(St, SEQ)
G = lambda n: Loc(('ghost:' + n,))
REG, CMAX, PEND, PTYPE = G('registered'), G('configured_before'), G('created'), G('created_type')
TEST, FIP = z3.Bool('test_only'), z3.Int('file_include_path')
DOC = z3.Int('doc')
root = z3.Function('root_element', I, I)

ORD, LEND = z3.Function('ord', I, I), z3.Function('list_end', I, I)
D0 = z3.Function('registered_at_start', St, Bo)
LOADS = z3.Function('loadable', St, St, Bo)
MADE = z3.Function('filter_for', I, I)
U = z3.Function('unfold_node', I, Bo)
AVF = z3.Function('attr_value', I, St, St, St)
ROK = z3.Function('filter_list_ok', I, SET, St, Bo)
RS = z3.Function('filter_list', I, MAPF, SEQ)
FOK = z3.Function('filters_ok', I, SET, St, Bo)
FDOM = z3.Function('filter_ids', I, SET, SET)
FVAL = z3.Function('filter_table', I, MAPF, MAPF)
TOK = z3.Function('routes_ok', I, SET, SET, St, Bo)          # node, routes so far, filter ids, dlpath
TDOM = z3.Function('route_ids', I, SET, SET)
TVAL = z3.Function('route_table', I, MAPF, MAPR, MAPR)       # node, filter table, routes so far
CK = z3.Function('route_refs_ok', I, SET, Bo)
CN = z3.Function('child_refs_ok', I, SET, Bo)
CA = z3.Function('attr_refs_ok', I, SET, Bo)
CR = z3.Function('route_list_refs_ok', I, SET, Bo)
CW = z3.Function('all_refs_ok', I, SET, Bo)
only = lambda names: z3.Function('only{%s}' % ','.join(sorted(names)), I, Bo)
SETS = dict(filter=('id', 'type', 'base'), inner=('refid', 'type', 'base'), route=('id', 'base'), start=('route', 'base'))
p, t = z3.Ints('p t')
s1, d1, dl = z3.Strings('s1 d1 dl')
D, D2 = z3.Consts('D D2', SET)
MF, MR = z3.Const('MF', MAPF), z3.Const('MR', MAPR)


def av(x, name): return AVF(PROPS[x], S(name), S(''))
def nxt(x): return jump(NEXT[x], z3.IntVal(ELEM))
def kid(x): return jump(CHILD[x], z3.IntVal(ELEM))
def creatable(ty, dlp): return z3.Or(D0(ty), LOADS(ty, dlp))
def refs(x, dom, dlp):
    """an element in a route is acceptable"""
    inner = z3.And(is_mp(x, 'filter'), only(SETS['inner'])(PROPS[x]), z3.If(z3.Length(av(x, 'refid')) > 0, dom[av(x, 'refid')],
                                                                         z3.Or(z3.Length(av(x, 'type')) == 0, creatable(av(x, 'type'), dlp))))
    return z3.If(is_mp(x, 'filters'), ROK(kid(x), dom, dlp), inner)


def axioms():
    mp = z3.MultiPattern
    nz = lambda b: z3.Implies(p != 0, b)
    one = z3.If(is_mp(p, 'filters'), RS(kid(p), MF), z3.If(z3.Length(av(p, 'refid')) > 0, z3.Unit(MF[av(p, 'refid')]),
                z3.If(z3.Length(av(p, 'type')) > 0, z3.Unit(MADE(p)), z3.Empty(SEQ))))
    idp = av(p, 'id')
    ax = [
        fa([p], U(p), U(p)), rank(0) == 0,
        # document order
        fa([p], nz(z3.And(ORD(p) < LEND(p), z3.Implies(NEXT[p] != 0, z3.And(ORD(p) < ORD(NEXT[p]), LEND(NEXT[p]) == LEND(p))))), NEXT[p]),
        fa([p], z3.Implies(z3.And(p != 0, CHILD[p] != 0), z3.And(ORD(p) < ORD(CHILD[p]), LEND(CHILD[p]) <= z3.If(NEXT[p] != 0, ORD(NEXT[p]), LEND(p)))), CHILD[p]),
        fa([p], nz(ORD(p) < LEND(p)), ORD(p)),
        # attributes
        fa([s1, d1], AVF(0, s1, d1) == d1, AVF(0, s1, d1)),
        fa([p, s1, d1], nz(AVF(p, s1, d1) == AVF(ANEXT[p], s1, z3.If(cstr(ANAME[p]) == s1, aval(p), d1))), mp(AVF(p, s1, d1), ANEXT[p])),
        fa([D], CA(0, D), CA(0, D)),
        fa([p, D], nz(CA(p, D) == z3.And(z3.Implies(cstr(ANAME[p]) == S('route'), D[aval(p)]), CA(ANEXT[p], D))), mp(CA(p, D), ANAME[p])),
        # elements
        fa([D, dl], ROK(0, D, dl), ROK(0, D, dl)), fa([MF], RS(0, MF) == z3.Empty(SEQ), RS(0, MF)),
        fa([p, D, dl], nz(ROK(p, D, dl) == z3.And(refs(p, D, dl), ROK(nxt(p), D, dl))), mp(ROK(p, D, dl), U(p))),
        fa([p, MF], nz(RS(p, MF) == z3.Concat(one, RS(nxt(p), MF))), mp(RS(p, MF), U(p))),
        fa([D, dl], FOK(0, D, dl), FOK(0, D, dl)), fa([D], FDOM(0, D) == D, FDOM(0, D)), fa([MF], FVAL(0, MF) == MF, FVAL(0, MF)),
        fa([p, D, dl], nz(FOK(p, D, dl) == z3.And(is_mp(p, 'filter'), only(SETS['filter'])(PROPS[p]), creatable(av(p, 'type'), dl), z3.Not(D[idp]),
                                                  FOK(nxt(p), z3.Store(D, idp, True), dl))), mp(FOK(p, D, dl), U(p))),
        fa([p, D], nz(FDOM(p, D) == FDOM(nxt(p), z3.Store(D, idp, True))), mp(FDOM(p, D), U(p))),
        fa([p, MF], nz(FVAL(p, MF) == FVAL(nxt(p), z3.Store(MF, idp, MADE(p)))), mp(FVAL(p, MF), U(p))),
        fa([D, D2, dl], TOK(0, D, D2, dl), TOK(0, D, D2, dl)), fa([D], TDOM(0, D) == D, TDOM(0, D)), fa([MF, MR], TVAL(0, MF, MR) == MR, TVAL(0, MF, MR)),
        fa([p, D, D2, dl], nz(TOK(p, D, D2, dl) == z3.And(is_mp(p, 'route'), only(SETS['route'])(PROPS[p]), ROK(kid(p), D2, dl), z3.Not(D[idp]),
                                                          TOK(nxt(p), z3.Store(D, idp, True), D2, dl))), mp(TOK(p, D, D2, dl), U(p))),
        fa([p, D], nz(TDOM(p, D) == TDOM(nxt(p), z3.Store(D, idp, True))), mp(TDOM(p, D), U(p))),
        fa([p, MF, MR], nz(TVAL(p, MF, MR) == TVAL(nxt(p), MF, z3.Store(MR, idp, RS(kid(p), MF)))), mp(TVAL(p, MF, MR), U(p))),
        fa([D], z3.And(CK(0, D), CN(0, D), CR(0, D), CW(0, D)), CK(0, D)), fa([D], CN(0, D), CN(0, D)), fa([D], CR(0, D), CR(0, D)), fa([D], CW(0, D), CW(0, D)),
        fa([p, D], nz(CK(p, D) == z3.And(z3.If(is_mp(p, 'filters'), CK(kid(p), D), z3.Implies(is_mp(p, 'filter'), CN(kid(p), D))), CK(nxt(p), D))), mp(CK(p, D), U(p))),
        fa([p, D], nz(CN(p, D) == z3.And(CA(PROPS[p], D), CN(nxt(p), D))), mp(CN(p, D), U(p))),
        fa([p, D], nz(CR(p, D) == z3.And(z3.Implies(is_mp(p, 'route'), CK(kid(p), D)), CR(nxt(p), D))), mp(CR(p, D), U(p))),
        fa([p, D], nz(CW(p, D) == z3.And(z3.If(is_mp(p, 'filters'), CK(kid(p), D), z3.Implies(is_mp(p, 'routes'), CR(kid(p), D))), CW(nxt(p), D))), mp(CW(p, D), U(p))),
        fa([p], root(p) >= 0, root(p)),
    ]
    for names in SETS.values():
        o = only(names)
        ok = z3.Or(*[cstr(ANAME[p]) == S(n) for n in names])
        ax += [o(0), fa([p], nz(o(p) == z3.And(ok, o(ANEXT[p]))), mp(o(p), ANAME[p]))]
    return ax


# by induction on the length of the sibling list (obligations of the lemma below)
def jump_lemma(x, ty): return z3.And(rank(jump(x, ty)) <= rank(x), z3.Implies(jump(x, ty) != 0, z3.And(x != 0, TYPE[jump(x, ty)] == ty, ORD(jump(x, ty)) >= ORD(x), LEND(jump(x, ty)) == LEND(x))))


class JumpLemma(Contract):
    qname = 'lemma: the next node of a type lies in the same sibling list, not before the start'
    standalone = True
    def lemmas(self, ex):
        x, ty = z3.Ints('x ty')
        return [('none after the end', [], jump_lemma(z3.IntVal(0), ty)),
                ('the node itself', [x != 0, TYPE[x] == ty], jump_lemma(x, ty)),
                ('inductive step', [x != 0, TYPE[x] != ty, jump_lemma(NEXT[x], ty)], jump_lemma(x, ty))]


AXTEXT = X.AXTEXT + ['XML input trees are trees: document order numbers increase from a node to its children and from those to the next sibling',
                     'definitions of the configuration rules (filter_list_ok, filters_ok, routes_ok, *_refs_ok) and of their meaning (filter_list, filter_table, route_table), one equation each']
ASSUME = ['a filter may refuse its own configuration with any exception; it does not change the router or the tree',
          'FactoryFilter is used through its contract (property C10); loading a filter of a type from a path has a fixed outcome',
          'including files happens before the elements are read: the tree is the one after inclusion', 'filters do not change the XML tree']


def rel(reg, dlp):
    """types that are registered or can be loaded stay the same"""
    return z3.ForAll([s1], z3.Or(reg[s1], LOADS(s1, dlp)) == creatable(s1, dlp), patterns=[reg[s1]])


class C(Contract):
    standalone, is_method, may_throw = False, True, True
    throw_types = [NS + 'XMLError', '#configure']
    throw_type = NS + 'XMLError'
    def byref(self, i): return i >= 4
    def state(self, ex, st):
        ex.loc_types = dict(ex.loc_types)
        ex.loc_types[ROUTES] = 'std::map<std::string, %s>' % RT
        ex.loc_types[IDS] = 'std::map<std::string, %s>' % FT
        ex.loc_types[ROUTE.sub('m_list')] = 'std::list<%s>' % FT
        st.store[ROUTES] = MapVal(z3.Const('routes.dom', SET), z3.Const('routes.val', MAPR), 'std::string', RT)
        st.store[IDS] = MapVal(z3.Const('ids.dom', SET), z3.Const('ids.val', MAPF), 'std::string', FT)
        st.store[START], st.store[DLP] = z3.String('start_route'), z3.String('dlpath')
        st.store[FAC] = LocPtr(Loc(('factory#',)))
        st.store[REG] = z3.Const('registered', SET)
        st.store[CMAX], st.store[PEND], st.store[PTYPE] = z3.Int('configured_before'), z3.IntVal(0), z3.String('created_type')
        st.assume(rel(st.store[REG], st.store[DLP]), DOC > 0, FIP >= 0)
        return REP
    def inputs(self, ex, st):
        this = self.state(ex, st)
        n = X.node(st, 'node')
        return this, self.args(ex, st, n)
    def args(self, ex, st, n): return [SymPtr(DOC, '_xmlDoc'), n, TEST, SymPtr(FIP, 'char')]
    def n(self, c): return sym(c.args[1])
    def requires(self, c):
        x = self.n(c)
        o = c.ex.rd_peek
        out = [('a list of elements', z3.Or(x == 0, TYPE[x] == ELEM)), ('no filter waits to be configured', o(c.pre, PEND) == 0)]
        if len(c.args) > 3:
            out += [('elements not used before', z3.Or(x == 0, o(c.pre, CMAX) <= ORD(x))), ('test flag passed on', as_bool(c.args[2]) == TEST),
                    ('include path passed on', c.ex.to_term(c.pre, c.args[3]) == FIP), ('known types', rel(o(c.pre, REG), o(c.pre, DLP)))]
        return out
    def modifies(self, c): return [REG, CMAX, PTYPE]
    def frame(self, c, *lvs):
        out = []
        for lv in lvs:
            a, b = c.old(lv), c.new(lv)
            if isinstance(a, MapVal): f = z3.And(a.dom == b.dom, a.val == b.val)
            elif z3.is_expr(a): f = a == b
            else: f = z3.BoolVal(isinstance(b, LocPtr) and a.lv == b.lv)
            out.append((self.nm(lv) + ' is unchanged', f))
        return out
    def nm(self, lv): return lv[-1]
    def used(self, c):
        x = self.n(c)
        return [('uses only the elements of the list', z3.And(c.new(CMAX) >= c.old(CMAX), z3.If(x == 0, c.new(CMAX) == c.old(CMAX), c.new(CMAX) <= LEND(x)))),
                ('every filter created is configured', c.new(PEND) == 0), ('types stay known', rel(c.new(REG), c.new(DLP)))]
    def throws(self, c):
        if getattr(c, 'thrown', '') == '#configure': return []
        return [('refuses only invalid configurations', z3.Not(self.ok(c)))]

    # ---- loop invariants: what holds for the rest of a list does not change while it is walked
    def invariants(self, L):
        out = []
        cur = lambda L, lv: L.cur.store[lv].term
        ent = lambda L, lv: L.entry.store[lv].term
        names = sorted({n for v in SETS.values() for n in v} - {'base'})
        strs = [lv for n, lv, v in L._vals() if z3.is_expr(v) and z3.is_string(v)]
        for n, lv, v in L._vals():
            if not isinstance(v, SymPtr): continue
            if strip(v.ctype).endswith('xmlAttr'):
                for k, s in SETS.items():
                    out.append(('attributes before %s are allowed (%s)' % (n, k), lambda L, lv=lv, s=s: only(s)(cur(L, lv)) == only(s)(ent(L, lv))))
                for sv in strs:
                    for nm in names:
                        out.append(('%s is the attribute %s so far' % (L.ex.lvname(sv), nm), lambda L, lv=lv, sv=sv, nm=nm:
                                    AVF(cur(L, lv), S(nm), L.cur.store[sv]) == AVF(ent(L, lv), S(nm), L.entry.store[sv])))
                out.append(('routes named before %s exist' % n, lambda L, lv=lv: CA(cur(L, lv), L.peek(ROUTES).dom) == CA(ent(L, lv), L.peek(ROUTES).dom)))
            if strip(v.ctype).endswith('xmlNode'):
                e = L.entry.store.get(lv)
                if not isinstance(e, SymPtr): continue
                out += self.walk(L, n, lv, cur, ent)
        return out
    def walk(self, L, n, lv, cur, ent):
        dom = lambda L: L.peek(ROUTES).dom
        same = lambda f: (lambda L: z3.And(U(cur(L, lv)), f(L, cur(L, lv)) == f(L, ent(L, lv))))
        out = [('%s is an element' % n, lambda L: z3.Or(cur(L, lv) == 0, TYPE[cur(L, lv)] == ELEM)),
               ('%s stays in its list' % n, lambda L: z3.Implies(cur(L, lv) != 0, z3.And(ent(L, lv) != 0, LEND(cur(L, lv)) == LEND(ent(L, lv)), ORD(cur(L, lv)) >= ORD(ent(L, lv)))))]
        for k, f in dict(CK=CK, CN=CN, CR=CR, CW=CW).items():
            out.append(('references before %s are fine (%s)' % (n, k), same(lambda L, x, f=f: f(x, dom(L)))))
        if not self.reads: return out
        out += [('elements from %s on are not used' % n, lambda L: z3.And(z3.Or(cur(L, lv) == 0, L.peek(CMAX) <= ORD(cur(L, lv))), L.peek(CMAX) >= L.entry.store[CMAX],
                                                                          z3.If(ent(L, lv) == 0, L.peek(CMAX) == L.entry.store[CMAX], L.peek(CMAX) <= LEND(ent(L, lv))))),
                ('no filter waits', lambda L: L.peek(PEND) == 0), ('known types', lambda L: rel(L.peek(REG), L.peek(DLP)))]
        E = lambda L, lv: L.ex.rd_peek(L.entry, lv)
        out += [('filters before %s are fine' % n, lambda L: z3.And(U(cur(L, lv)), FOK(cur(L, lv), L.peek(IDS).dom, L.peek(DLP)) == FOK(ent(L, lv), E(L, IDS).dom, L.peek(DLP)),
                                                                    FDOM(cur(L, lv), L.peek(IDS).dom) == FDOM(ent(L, lv), E(L, IDS).dom), FVAL(cur(L, lv), L.peek(IDS).val) == FVAL(ent(L, lv), E(L, IDS).val))),
                ('routes before %s are fine' % n, lambda L: z3.And(U(cur(L, lv)), TOK(cur(L, lv), dom(L), L.peek(IDS).dom, L.peek(DLP)) == TOK(ent(L, lv), E(L, ROUTES).dom, L.peek(IDS).dom, L.peek(DLP)),
                                                                   TDOM(cur(L, lv), dom(L)) == TDOM(ent(L, lv), E(L, ROUTES).dom),
                                                                   TVAL(cur(L, lv), L.peek(IDS).val, L.peek(ROUTES).val) == TVAL(ent(L, lv), L.peek(IDS).val, E(L, ROUTES).val))),
                ('list elements before %s are fine' % n, same(lambda L, x: ROK(x, L.peek(IDS).dom, L.peek(DLP))))]
        for n2, lv2, v2 in L.all_vals():
            if isinstance(v2, ListVal) and lv2 in L.entry.store:
                out.append(('%s continues to the whole list' % n2, lambda L, lv2=lv2: z3.And(U(cur(L, lv)), z3.Concat(L.cur.store[lv2].seq, RS(cur(L, lv), L.peek(IDS).val)) ==
                                                                                z3.Concat(L.entry.store[lv2].seq, RS(ent(L, lv), L.peek(IDS).val)))))
        return out
    reads = True


class Filters1(C):
    qname, nparams = NS + 'RouterFleXML::Rep::parse_xml_filters1', 5
    cost = 5
    def inputs(self, ex, st):
        r = C.inputs(self, ex, st)
        st.store[ROUTE.sub('m_list')] = ListVal(z3.Const('route_so_far', SEQ), FT)
        return r[0], r[1] + [ROUTE]
    def lst(self, c): return c.args[4].sub('m_list')
    def variant(self, c): return z3.If(self.n(c) == 0, z3.IntVal(0), LEND(self.n(c)) - ORD(self.n(c)))
    def modifies(self, c): return C.modifies(self, c) + [self.lst(c)]
    def ok(self, c): return ROK(self.n(c), c.old(IDS).dom, c.old(DLP))
    def ensures(self, c):
        return [('accepts only valid lists of filters', self.ok(c)),
                ('appends exactly the filters of the list, in order', c.new(self.lst(c)).seq == z3.Concat(c.old(self.lst(c)).seq, RS(self.n(c), c.old(IDS).val)))] + \
            self.used(c) + self.frame(c, IDS, ROUTES, START, DLP)


class Filters(C):
    qname, nparams = NS + 'RouterFleXML::Rep::parse_xml_filters', 4
    def modifies(self, c): return C.modifies(self, c) + [IDS]
    def ok(self, c): return FOK(self.n(c), c.old(IDS).dom, c.old(DLP))
    def ensures(self, c):
        a, b = c.old(IDS), c.new(IDS)
        return [('accepts only valid filter definitions', self.ok(c)), ('defines exactly the filters listed', b.dom == FDOM(self.n(c), a.dom)),
                ('each name stands for the filter made for its element', b.val == FVAL(self.n(c), a.val))] + self.used(c) + self.frame(c, ROUTES, START, DLP)


class Routes(C):
    qname, nparams = NS + 'RouterFleXML::Rep::parse_xml_routes', 4
    def modifies(self, c): return C.modifies(self, c) + [ROUTES]
    def ok(self, c): return z3.And(self.n(c) != 0, TOK(self.n(c), c.old(ROUTES).dom, c.old(IDS).dom, c.old(DLP)))
    def ensures(self, c):
        a, b = c.old(ROUTES), c.new(ROUTES)
        return [('accepts only valid routes, at least one', self.ok(c)), ('defines exactly the routes listed', b.dom == TDOM(self.n(c), a.dom)),
                ('each route holds exactly the filters listed in it', b.val == TVAL(self.n(c), c.old(IDS).val, a.val))] + self.used(c) + self.frame(c, IDS, START, DLP)


class CheckRoutes(C):
    qname, nparams = NS + 'RouterFleXML::Rep::check_routes_in_filters', 1
    throw_types = [NS + 'XMLError']
    reads = False
    def args(self, ex, st, n): return [n]
    def n(self, c): return sym(c.args[0])
    def variant(self, c): return z3.If(self.n(c) == 0, z3.IntVal(0), LEND(self.n(c)) - ORD(self.n(c)))
    def modifies(self, c): return []
    def ok(self, c): return CK(self.n(c), c.old(ROUTES).dom)
    def ensures(self, c): return [('accepts only references to existing routes', self.ok(c))] + (self.frame(c, IDS, ROUTES, START, DLP, PEND))


class Config(C):
    qname, nparams = NS + 'RouterFleXML::Rep::parse_xml_config_dom', 3
    standalone = True
    cost = 9
    def inputs(self, ex, st):
        this = self.state(ex, st)
        st.store[ROUTES] = MapVal(z3.K(St, z3.BoolVal(False)), z3.Const('routes.val', MAPR), 'std::string', RT)
        st.store[IDS] = MapVal(z3.K(St, z3.BoolVal(False)), z3.Const('ids.val', MAPF), 'std::string', FT)
        st.store[REG] = z3.Const('registered', SET)
        st.assume(z3.ForAll([s1], st.store[REG][s1] == D0(s1), patterns=[st.store[REG][s1]]), st.store[CMAX] <= ORD(root(DOC)))
        self.null = z3.Int('doc_or_null')
        st.assume(z3.Or(self.null == 0, self.null == DOC))
        return this, [SymPtr(self.null, '_xmlDoc'), TEST, SymPtr(FIP, 'char')]
    def requires(self, c): return []
    def parts(self, c):
        r = root(DOC)
        n1 = kid(r)
        isdl = is_mp(n1, 'dlpath')
        n2 = z3.If(isdl, nxt(n1), n1)
        dlp = z3.If(isdl, node_text(n1), c.old(DLP))
        n3 = nxt(n2)
        isf = is_mp(n3, 'filters')
        n4 = z3.If(isf, nxt(n3), n3)
        return r, n1, n2, n3, n4, isf, dlp
    def maps(self, c):
        r, n1, n2, n3, n4, isf, dlp = self.parts(c)
        i, rt = c.old(IDS), c.old(ROUTES)
        idom = z3.If(isf, FDOM(kid(n3), i.dom), i.dom)
        ival = z3.If(isf, FVAL(kid(n3), i.val), i.val)
        return idom, ival, TDOM(kid(n4), rt.dom), TVAL(kid(n4), ival, rt.val), AVF(PROPS[n2], S('route'), c.old(START))
    def ok(self, c):
        r, n1, n2, n3, n4, isf, dlp = self.parts(c)
        idom, ival, rdom, rval, start = self.maps(c)
        return z3.And(self.null != 0, is_mp(r, 'metaproxy'), is_mp(n2, 'start'), only(SETS['start'])(PROPS[n2]),
                      z3.Implies(isf, FOK(kid(n3), c.old(IDS).dom, dlp)), is_mp(n4, 'routes'), kid(n4) != 0, TOK(kid(n4), c.old(ROUTES).dom, idom, dlp),
                      nxt(n4) == 0, CW(n1, rdom), rdom[start])
    def ensures(self, c):
        idom, ival, rdom, rval, start = self.maps(c)
        return [('accepts only valid configurations', self.ok(c)), ('defines exactly the configured filters', z3.And(c.new(IDS).dom == idom, c.new(IDS).val == ival)),
                ('defines exactly the configured routes', c.new(ROUTES).dom == rdom), ('each route holds exactly its configured filters', c.new(ROUTES).val == rval),
                ('the start route is the configured one, and exists', z3.And(c.new(START) == start, rdom[start])), ('every filter created is configured', c.new(PEND) == 0)]
    def throws(self, c):
        if c.thrown == '#configure': return []
        return [('refuses only invalid configurations (or a failed inclusion)', z3.Or(z3.Not(self.ok(c)), z3.And(FIP != 0, c.ex.include_failed)))]


def install(ex):
    ex.mbqi = False
    X.setup(ex)
    ex.inline_records = {'Route': ('m_list', 'std::list<%s>' % FT)}
    ex.axioms += axioms()
    ex.axioms.append(fa([p, t], jump_lemma(p, t), jump(p, t)))
    ex.elem_inv = lambda et, x: x > 0 if 'filter::Base' in et else None
    ex.include_failed = z3.Bool('inclusion_failed')
    ex.methods[('FactoryFilter', 'exist')] = lambda ex, s, o, a, n: [(s, s.store[REG][ex.sval(s, a[0], n)])]
    def add(ex, s, o, a, n):
        ty, path = ex.sval(s, a[0], n), ex.sval(s, a[1], n)
        ok = z3.Or(s.store[REG][ty], LOADS(ty, path))
        reg = z3.Const(fresh_name('registered'), SET)
        s.assume(reg == z3.Store(s.store[REG], ty, ok))
        ex.wr(s, REG, reg, n)
        return [(s, ok)]
    ex.methods[('FactoryFilter', 'add_creator_dl')] = add
    def create(ex, s, o, a, n):
        ty = ex.sval(s, a[0], n)
        bad = s.copy(); bad.assume(z3.Not(s.store[REG][ty])); bad.flow = ('throw', NS + 'FactoryFilter::NotFound')
        s.assume(s.store[REG][ty])
        ex.require(s, s.store[PEND] == 0, 'the filter created before was configured', n, 'post')
        v = z3.Int(fresh_name('created')); s.assume(v > 0)
        ex.wr(s, PEND, v, n); ex.wr(s, PTYPE, ty, n)
        return [(s, SymPtr(v, 'metaproxy_1::filter::Base')), (bad, None)]
    ex.methods[('FactoryFilter', 'create')] = create
    def configure(ex, s, o, a, n):
        if not isinstance(o, HLoc) or not isinstance(a[0], SymPtr): raise Unsupported('configure on %r' % (o,), n, ex)
        x = a[0].term
        ex.require(s, z3.And(s.store[PEND] == o.term, o.term != 0), 'configures the filter just created, once', n, 'post')
        ex.require(s, z3.And(x != 0, s.store[CMAX] <= ORD(x)), 'no element configures two filters', n, 'post')
        ex.require(s, s.store[PTYPE] == av(x, 'type'), 'the filter is of the type its element states', n, 'post')
        ex.require(s, z3.And(as_bool(a[1]) == TEST, ex.to_term(s, a[2]) == FIP), 'test flag and include path passed on', n, 'post')
        s.assume(MADE(x) == o.term)
        ex.wr(s, PEND, z3.IntVal(0), n); ex.wr(s, CMAX, simp(ORD(x) + 1), n)
        bad = s.copy(); bad.flow = ('throw', '#configure')
        return [(s, None), (bad, None)]
    ex.methods[('Base', 'configure')] = configure
    ex.externs['xmlDocGetRootElement'] = lambda ex, s, this, a, n: [(s, SymPtr(root(a[0].term), '_xmlNode'))]
    def include(ex, s, this, a, n):
        ex.require(s, ex.to_term(s, a[1]) == FIP, 'files are included from the given path', n, 'post')
        v = z3.Int(fresh_name('include')); s.assume((v != 0) == ex.include_failed)
        return [(s, v)]
    ex.externs['yaz_xml_include_glob'] = include


XMLC = [c for c in XU.CONTRACTS if c.qname.split('::')[-1] in ('is_element_mp', 'check_element_mp', 'is_element', 'jump_to_next', 'jump_to_children', 'jump_to', 'get_text')]
import copy
XMLC = [copy.copy(c) for c in XMLC]
for c in XMLC: c.assumed = True        # verified by property C04 and C05
CONTRACTS = [Filters1(), Filters(), Routes(), CheckRoutes(), Config(), JumpLemma()]
UNITS = [('src/router_flexml.cpp', CONTRACTS + XMLC, install)]

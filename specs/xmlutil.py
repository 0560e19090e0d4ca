"""Contracts for src/xmlutil.cpp"""
import z3
from vcx.core import *
from . import xmlheap as X
from .xmlheap import *

ASSUME = ['atoi, strcmp, xmlStrcmp: C library / libxml2 semantics', 'XML trees are not modified while they are read']
NSP = 'metaproxy_1::xml::'


class XC(Contract):
    src = 'src/xmlutil.cpp'
    def byref(self, i): return False
    def invariants(self, L): return siblings(L)
    throw_type = 'metaproxy_1::XMLError'


def sym(c): return c.term if isinstance(c, SymPtr) else z3.IntVal(0)


class GetTextNode(XC):
    qname, nparams, types = NSP + 'get_text', 1, ['xmlNode']
    def inputs(self, ex, st): return None, [node(st, 'ptr')]
    def result(self, c): return z3.String(fresh_name('text'))
    def ensures(self, c): return [('returns the text of the node', c.ret == node_text(sym(c.args[0])))]


class GetTextAttr(XC):
    qname, nparams, types = NSP + 'get_text', 1, ['xmlAttr']
    def inputs(self, ex, st): return None, [node(st, 'ptr', True, '_xmlAttr')]
    def requires(self, c): return [('attribute present', sym(c.args[0]) != 0)]
    def result(self, c): return z3.String(fresh_name('text'))
    def ensures(self, c): return [('returns the text of the attribute', c.ret == node_text(ACHILD[sym(c.args[0])]))]


def first_text(x):
    """content pointer of the text the boolean / integer readers look at, 0 if none"""
    y = z3.If(z3.And(x != 0, TYPE[x] != TEXT), CHILD[x], x)
    return z3.If(z3.And(y != 0, TYPE[y] == TEXT), CONT[y], 0)


class GetBool(XC):
    qname, nparams = NSP + 'get_bool', 2
    def inputs(self, ex, st): return None, [node(st, 'ptr'), z3.Bool('default_value')]
    def result(self, c): return z3.Bool(fresh_name('bool'))
    def ensures(self, c):
        f = first_text(sym(c.args[0]))
        return [('true exactly for "true" and "1", default when there is no text',
                 c.ret == z3.If(f == 0, c.args[1], z3.Or(cstr(f) == S('true'), cstr(f) == S('1'))))]


class GetInt(XC):
    qname, nparams = NSP + 'get_int', 2
    def inputs(self, ex, st): return None, [node(st, 'ptr'), ex.fresh(st, 'int', 'default_value')]
    def result(self, c): return z3.Int(fresh_name('int'))
    def ensures(self, c):
        f = first_text(sym(c.args[0]))
        at = z3.Function('atoi', St, I)
        return [('integer value of the text, default when there is no text', c.ret == z3.If(f == 0, c.args[1], at(cstr(f))))]


def str_in(name): return z3.String(name)


def attr_is(a, ns, name):
    return z3.And(a != 0, cstr(ANAME[a]) == name, z3.Or(z3.Length(ns) == 0, z3.And(ANS[a] != 0, HREF[ANS[a]] != 0, cstr(HREF[ANS[a]]) == ns)))


class IsAttribute(XC):
    qname, nparams = NSP + 'is_attribute', 3
    def inputs(self, ex, st): return None, [node(st, 'ptr', False, '_xmlAttr'), str_in('ns'), str_in('name')]
    def result(self, c): return z3.Bool(fresh_name('isattr'))
    def ensures(self, c): return [('true exactly for that name (and namespace, if one is asked for)', c.ret == attr_is(sym(c.args[0]), c.args[1], c.args[2]))]


class CheckAttribute(XC):
    qname, nparams, may_throw = NSP + 'check_attribute', 3, True
    def inputs(self, ex, st): return None, [node(st, 'ptr', False, '_xmlAttr'), str_in('ns'), str_in('name')]
    def result(self, c): return z3.BoolVal(True)
    def ensures(self, c): return [('accepts only the expected attribute', attr_is(sym(c.args[0]), c.args[1], c.args[2])), ('returns true', c.ret)]
    def throws(self, c): return [('refuses only other attributes', z3.Not(attr_is(sym(c.args[0]), c.args[1], c.args[2])))]


class IsElement(XC):
    qname, nparams = NSP + 'is_element', 3
    def inputs(self, ex, st): return None, [node(st, 'ptr'), str_in('ns'), str_in('name')]
    def result(self, c): return z3.Bool(fresh_name('iselem'))
    def ensures(self, c): return [('true exactly for an element of that namespace and name', c.ret == is_elem(sym(c.args[0]), c.args[1], c.args[2]))]


class IsElementMp(XC):
    qname, nparams = NSP + 'is_element_mp', 2
    def inputs(self, ex, st): return None, [node(st, 'ptr'), str_in('name')]
    def result(self, c): return z3.Bool(fresh_name('iselem'))
    def ensures(self, c): return [('true exactly for a Metaproxy element of that name', c.ret == is_mp(sym(c.args[0]), c.args[1]))]


class CheckElementMp(XC):
    qname, nparams, may_throw = NSP + 'check_element_mp', 2, True
    def inputs(self, ex, st): return None, [node(st, 'ptr'), str_in('name')]
    def result(self, c): return z3.BoolVal(True)
    def ensures(self, c): return [('accepts only the expected element', is_mp(sym(c.args[0]), c.args[1])), ('returns true', c.ret)]
    def throws(self, c): return [('refuses only other elements', z3.Not(is_mp(sym(c.args[0]), c.args[1])))]


class Jump(XC):
    nparams = 2
    def inputs(self, ex, st): return None, [node(st, 'node', self.nn), ex.fresh(st, 'int', 'xml_node_type')]
    def requires(self, c): return [('node present', sym(c.args[0]) != 0)] if self.nn else []
    def result(self, c):
        v = z3.Int(fresh_name('jump')); c.post.assume(v >= 0)
        return SymPtr(v, '_xmlNode')
    def ensures(self, c):
        x = sym(c.args[0])
        return [(self.lab, sym(c.ret) == jump(self.first(x), c.args[1]))]


class JumpTo(Jump):
    qname, nn, lab = NSP + 'jump_to', False, 'first sibling of the type at or after the node'
    def first(self, x): return x


class JumpNext(Jump):
    qname, nn, lab = NSP + 'jump_to_next', True, 'first sibling of the type after the node'
    def first(self, x): return NEXT[x]


class JumpChildren(Jump):
    qname, nn, lab = NSP + 'jump_to_children', True, 'first child of the type'
    def first(self, x): return CHILD[x]


class CheckEmpty(XC):
    qname, nparams, may_throw = NSP + 'check_empty', 1, True
    def inputs(self, ex, st): return None, [node(st, 'node')]
    def ensures(self, c):
        x = sym(c.args[0])
        return [('accepts only elements without child elements', z3.Or(x == 0, jump(CHILD[x], ELEM) == 0))]
    def throws(self, c):
        x = sym(c.args[0])
        return [('refuses only elements with child elements', z3.And(x != 0, jump(CHILD[x], ELEM) != 0))]


# ---- parse_attr: names = K C strings then a null pointer, values = K strings
K = z3.Int('K')
nameat = z3.Function('nameat', I, I)
known = z3.Function('known', St, Bo)
allknown = z3.Function('allknown', I, Bo)
lastval = z3.Function('lastval', I, St, St, St)
i, j = z3.Ints('i j')
s1, d1 = z3.Strings('s1 d1')
PA = [
    K >= 0, K < 1000, nameat(K) == 0,
    fa([i], z3.Implies(z3.And(i >= 0, i < K), nameat(i) > 0), nameat(i)),
    z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < K), cstr(nameat(i)) != cstr(nameat(j))), patterns=[z3.MultiPattern(nameat(i), nameat(j))]),
    allknown(0), z3.ForAll([s1, d1], lastval(0, s1, d1) == d1, patterns=[lastval(0, s1, d1)]),
    fa([p], z3.Implies(p != 0, allknown(p) == z3.And(known(cstr(ANAME[p])), allknown(ANEXT[p]))), z3.MultiPattern(allknown(p), ANEXT[p])),
    fa([p], z3.Implies(z3.And(p != 0, z3.Not(known(cstr(ANAME[p])))), z3.Not(allknown(p))), z3.MultiPattern(allknown(p), ANAME[p])),
    fa([i], z3.Implies(z3.And(i >= 0, i < K), known(cstr(nameat(i)))), nameat(i)),
    z3.ForAll([s1], z3.Implies(known(s1), z3.Exists([i], z3.And(i >= 0, i < K, cstr(nameat(i)) == s1))), patterns=[known(s1)]),
    z3.ForAll([p, s1, d1], z3.Implies(p != 0, lastval(p, s1, d1) == lastval(ANEXT[p], s1, z3.If(cstr(ANAME[p]) == s1, aval(p), d1))),
              patterns=[z3.MultiPattern(lastval(p, s1, d1), ANEXT[p])]),
]
VALS = Loc(('values#',))
def onlyattr(a, names):
    """every attribute from a on has one of the names"""
    nm = ','.join(sorted(n.as_string() if z3.is_string_value(n) else str(n) for n in map(z3.simplify, names)))
    return z3.Function('only{%s}' % nm, I, Bo)(a)



class ParseAttr(XC):
    qname, nparams, may_throw = NSP + 'parse_attr', 3, True
    cost = 5
    def inputs(self, ex, st):
        st.store[VALS] = ArrVal(z3.Const('values@0', z3.ArraySort(I, St)), 'std::string', K)
        ex.axioms = ex.axioms + PA
        return None, [node(st, 'node'), SymPtr(z3.Int('names@'), 'const char *'), LocPtr(VALS)]
    # at a call site the names are a local array of literals: the contract is instantiated with those names
    def names(self, c):
        if not isinstance(c.args[1], LocPtr): return None
        out = []
        while True:
            v = c.pre.store.get(Loc(c.args[1].lv + (len(out),)))
            if v is None or isinstance(v, Undef): raise Unsupported('names passed to parse_attr are not null terminated literals', c.node, c.ex)
            if isinstance(v, Null) or (z3.is_expr(v) and z3.is_int_value(v)): return out
            out.append(c.ex.to_string(v))
            if len(out) > 20: raise Unsupported('names passed to parse_attr', c.node, c.ex)
    def vlocs(self, c): return [Loc(c.args[2].lv + (k,)) for k in range(len(self.names(c)))]
    def requires(self, c):
        if not isinstance(c.args[1], LocPtr): return []
        for lv in self.vlocs(c):
            if lv not in c.pre.store: return [('one value string for each name', z3.BoolVal(False))]
        return []
    def modifies(self, c): return self.vlocs(c)
    def havoc(self, c, lv, t): return z3.String(fresh_name('value'))
    def _ok(self, c):
        x = sym(c.args[0])
        ns = self.names(c)
        return z3.Or(x == 0, allknown(PROPS[x]) if ns is None else onlyattr(PROPS[x], ns))
    def ensures(self, c):
        x = sym(c.args[0])
        ns = self.names(c)
        if ns is not None:
            return [('ok', self._ok(c))] + [('value', c.new(lv) == z3.If(x == 0, S(''), lastval(PROPS[x], nm, S('')))) for lv, nm in zip(self.vlocs(c), ns)]
        v = c.new(VALS)
        k = z3.Int('k')
        return [('accepts only attributes that are asked for', self._ok(c)),
                ('every value is that of the attribute of that name, empty if absent', z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < K),
                    v.arr[k] == z3.If(x == 0, S(''), lastval(PROPS[x], cstr(nameat(k)), S('')))), patterns=[nameat(k)]))]
    def throws(self, c): return [('refuses only unknown attributes', z3.Not(self._ok(c)))]
    def measures(self, L):
        return [('names after ' + n, lambda L, lv=lv: K - L.cur.store[lv]) for n, lv, v in L._vals() if z3.is_expr(v) and z3.is_int(v)]
    def invariants(self, L):
        out = []
        k = z3.Int('k')
        for n, lv, v in L._vals():
            if z3.is_expr(v) and z3.is_int(v):
                out.append(('values up to %s are cleared' % n, lambda L, lv=lv: z3.ForAll([k], z3.Implies(
                    z3.And(k >= 0, k < L.cur.store[lv]), L.peek(VALS).arr[k] == S('')), patterns=[L.peek(VALS).arr[k]])))
                out.append(('%s <= K' % n, lambda L, lv=lv: z3.And(L.cur.store[lv] >= 0, L.cur.store[lv] <= K)))
                for n2, lv2, v2 in L.all_vals():
                    if isinstance(v2, SymPtr) and strip(v2.ctype) in ('char', 'unsigned char', 'xmlChar'):
                        out.append(('%s is none of the names up to %s' % (n2, n), lambda L, lv=lv, lv2=lv2: z3.ForAll([k], z3.Implies(
                            z3.And(k >= 0, k < L.cur.store[lv]), cstr(nameat(k)) != cstr(L.cur.store[lv2].term)), patterns=[nameat(k)])))
            if isinstance(v, SymPtr) and strip(v.ctype).endswith('xmlAttr'):
                out.append(('values so far continue to the values of all attributes', lambda L, lv=lv: z3.ForAll([k], z3.Implies(
                    z3.And(k >= 0, k < K), lastval(L.cur.store[lv].term, cstr(nameat(k)), L.peek(VALS).arr[k]) ==
                    lastval(L.entry.store[lv].term, cstr(nameat(k)), S(''))), patterns=[nameat(k)])))
                out.append(('attributes before %s are known' % n, lambda L, lv=lv: allknown(L.cur.store[lv].term) == allknown(L.entry.store[lv].term)))
        return out


AUTH = Loc(('auth#',))


class GetRoute(XC):
    qname, nparams, may_throw = NSP + 'get_route', 1, True
    N_ = ['route']
    def inputs(self, ex, st): return None, [node(st, 'node')]
    def _ok(self, c):
        x = sym(c.args[0])
        return z3.Or(x == 0, onlyattr(PROPS[x], [S(n) for n in self.N_]))
    def result(self, c): return z3.String(fresh_name('route'))
    def val(self, c, nm):
        x = sym(c.args[0])
        return z3.If(x == 0, S(''), lastval(PROPS[x], S(nm), S('')))
    def ensures(self, c): return [('accepts only its own attributes', self._ok(c)), ('returns the route attribute', c.ret == self.val(c, 'route'))]
    def throws(self, c): return [('refuses only unknown attributes', z3.Not(self._ok(c)))]


class GetRouteAuth(GetRoute):
    nparams = 2
    N_ = ['route', 'auth']
    def byref(self, i): return i == 1
    def inputs(self, ex, st):
        st.store[AUTH] = z3.String('auth@0')
        return None, [node(st, 'node'), AUTH]
    def modifies(self, c): return [c.args[1]]
    def havoc(self, c, lv, t): return z3.String(fresh_name('auth'))
    def ensures(self, c): return GetRoute.ensures(self, c) + [('delivers the auth attribute', c.new(c.args[1]) == self.val(c, 'auth'))]


CONTRACTS = [GetRoute(), GetRouteAuth(), GetTextNode(), GetTextAttr(), GetBool(), GetInt(), IsAttribute(), CheckAttribute(), IsElement(), IsElementMp(), CheckElementMp(),
             JumpTo(), JumpNext(), JumpChildren(), CheckEmpty(), ParseAttr()]


def install(ex):
    X.setup(ex)
    def symindex(ex, s, pt, ix, n):
        if isinstance(pt, SymPtr) and str(pt.term) == 'names@':
            ex.require(s, z3.And(ix >= 0, ix <= K), 'index inside the names', n)
            return SymPtr(nameat(ix), 'char')
        raise Unsupported('index of pointer', n, ex)
    ex.externs['#symindex'] = symindex


UNITS = [('src/xmlutil.cpp', CONTRACTS, install)]

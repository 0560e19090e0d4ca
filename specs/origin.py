"""Contracts for src/origin.cpp.  Ghost view: the address text is
F ++ peer ++ " " ++ bind, where F is empty or ends with a blank, and peer and
bind hold no blank; peer is not empty."""
import z3
from vcx.core import *
from vcx.lib import CHR, chr_axiom

S = z3.StringVal
SS = z3.StringSort()
NS = 'metaproxy_1::Origin::'
THIS = Loc(('this',))
ADDR, OID, MAX, CUST = (THIS.sub(f) for f in ('m_address', 'm_origin_id', 'm_max_sockets', 'm_custom_session'))
OUT = Loc(('ghost:out',))
FIELDS = [('address', ADDR), ('connection number', OID), ('socket limit', MAX), ('custom session', CUST)]
TYPES = {ADDR: 'std::string', OID: 'unsigned long', MAX: 'int', CUST: 'std::string'}
ASSUME = ['the first address recorded for an origin is "<peer> <listening address>" with a non-empty peer and no further blanks (asserted by the code)']


def first_word(s):
    i = z3.IndexOf(s, S(' '), 0)
    return z3.If(i >= 0, z3.SubString(s, 0, i), s)


class C(Contract):
    standalone = True
    is_method = True
    frame = ()       # fields that may change
    def byref(self, i): return True
    def inputs(self, ex, st):
        ex.loc_types = dict(ex.loc_types)
        for lv, t in TYPES.items():
            ex.loc_types[lv] = t
            st.store[lv] = self.field(ex, st, lv, t)
        return THIS, self.args(ex, st)
    def field(self, ex, st, lv, t): return ex.fresh(st, t, lv[-1])
    def args(self, ex, st): return []
    def same(self, c):
        return [('%s is kept' % n, c.new(lv) == c.old(lv)) for n, lv in FIELDS if lv not in self.frame]
    def ensures(self, c): return self.post(c) + self.same(c)
    def post(self, c): return []


class Split(C):
    """address of known shape: blanks at q (and f-1 unless f = 0), none in [f, q) and after q"""
    def field(self, ex, st, lv, t):
        if lv != ADDR: return ex.fresh(st, t, lv[-1])
        a, f, q, k = z3.Const('address', SS), z3.Int('f'), z3.Int('q'), z3.Int('k!a')
        self.a, self.peer, self.bind = a, z3.SubString(a, f, q - f), z3.SubString(a, q + 1, z3.Length(a) - q - 1)
        st.assume(f >= 0, q > f, q < z3.Length(a), z3.Length(a) < 2**30, CHR(a, q) == 32, z3.Or(f == 0, CHR(a, f - 1) == 32),
                  z3.ForAll([k], z3.Implies(z3.And(k >= f, k < z3.Length(a), k != q), CHR(a, k) != 32), patterns=[CHR(a, k)]))
        return a


class Ctor(C):
    qname, nparams = NS + 'Origin', 0
    def inputs(self, ex, st): return THIS, []
    def ensures(self, c):
        return [('no address yet', c.new(ADDR) == S('')), ('connection number is 0', c.new(OID) == 0), ('no socket limit', c.new(MAX) == 0)]


class SetMax(C):
    qname, nparams, frame = NS + 'set_max_sockets', 1, (MAX,)
    def args(self, ex, st): return [ex.fresh(st, 'int', 'max')]
    def post(self, c): return [('limit is stored', c.new(MAX) == c.args[0])]


class GetMax(C):
    qname, nparams = NS + 'get_max_sockets', 0
    def post(self, c): return [('returns the limit', c.ret == c.old(MAX))]


class SetCustom(C):
    qname, nparams, frame = NS + 'set_custom_session', 1, (CUST,)
    def args(self, ex, st):
        a = Loc(('custom#',)); st.store[a] = z3.Const('custom', SS); ex.loc_types[a] = 'std::string'
        return [a]
    def post(self, c): return [('name is stored', c.new(CUST) == c.pre.store[c.args[0]])]


class SetAddr(C):
    """first address"""
    label = 'first address'
    qname, nparams, frame = NS + 'set_tcpip_address', 2, (ADDR, OID)
    def field(self, ex, st, lv, t):
        return S('') if lv == ADDR else ex.fresh(st, t, lv[-1])
    def args(self, ex, st):
        a = z3.Const('addr', SS)
        st.assume(z3.Contains(a, S(' ')), z3.Length(a) < 2**30)
        return [a, ex.fresh(st, 'unsigned long', 's')]
    def post(self, c):
        return [('address is recorded unchanged', c.new(ADDR) == c.args[0]), ('connection number is recorded', c.new(OID) == c.args[1])]


class AddAddr(Split):
    """further (forwarded-for) addresses"""
    label = 'further address'
    qname, nparams, frame = NS + 'set_tcpip_address', 2, (ADDR, OID)
    def args(self, ex, st):
        a = z3.Const('addr', SS)
        st.assume(z3.Length(a) < 2**30)
        return [a, ex.fresh(st, 'unsigned long', 's')]
    def post(self, c):
        new, k, d = c.new(ADDR), z3.Int('k!p'), z3.Length(c.args[0]) + 1
        return [('the new address comes first', new == z3.Concat(c.args[0], S(' '), self.a)),
                ('peer and listening address stay last', z3.Implies(z3.And(k >= 0, k < z3.Length(self.a)), CHR(new, k + d) == CHR(self.a, k))),
                ('separated by a blank', z3.And(CHR(new, d - 1) == 32, z3.Length(new) == z3.Length(self.a) + d)),
                ('connection number is recorded', c.new(OID) == c.args[1])]


class Peer(Split):
    qname, nparams = NS + 'get_address', 0
    def post(self, c): return [('returns the peer', c.ret == self.peer)]


class Bind(Split):
    qname, nparams = NS + 'get_bind_address', 0
    def post(self, c): return [('returns the listening address', c.ret == self.bind)]


class Fwd(C):
    qname, nparams, standalone = NS + 'get_forward_address', 0, False
    def post(self, c): return [('returns the first address', c.ret == first_word(c.old(ADDR)))]
    def apply_result(self, c): return first_word(c.old(ADDR))
    def result(self, c): return z3.Const(fresh_name('fwd'), SS)


class Print(C):
    qname, nparams = 'operator<<', 2
    is_method = False
    def inputs(self, ex, st):
        C.inputs(self, ex, st)
        st.store[OUT] = S('')
        ex.loc_types[OUT] = 'std::string'
        return None, [Loc(('os#',)), THIS]
    def post(self, c):
        fw, cu = first_word(c.old(ADDR)), c.old(CUST)
        return [('prints forwarded address, connection number and custom session', c.new(OUT) == z3.Concat(
            z3.If(fw == S(''), S('0'), fw), S(':'), z3.IntToStr(c.old(OID)), z3.If(cu == S(''), S(''), z3.Concat(S(':'), cu))))]


def install(ex):
    ex.heap_types = {}
    ex.axioms = list(ex.axioms) + [chr_axiom()]
    def out(ex, s, o, a, n):
        v = a[0]
        v = ex.rd(s, v, n) if is_lv(v) else v
        if z3.is_expr(v) and z3.is_int(v): t = z3.IntToStr(v)
        else: t = ex.sval(s, v, n)
        ex.wr(s, OUT, z3.Concat(s.store[OUT], t))
        return [(s, o)]
    ex.methods[('*', 'operator<<')] = out


CONTRACTS = [Ctor(), SetMax(), GetMax(), SetCustom(), SetAddr(), AddAddr(), Peer(), Bind(), Fwd(), Print()]
UNITS = [('src/origin.cpp', CONTRACTS, install)]

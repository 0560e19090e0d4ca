"""Contracts for src/factory_filter.cpp: the table type name -> creator."""
import z3
from vcx.core import *

S = z3.StringVal
SS, I = z3.StringSort(), z3.IntSort()
NS = 'metaproxy_1::FactoryFilter::'
REP, THIS = Loc(('rep#',)), Loc(('this',))
TAB = REP.sub('m_fcm')
CALLS, MADE = Loc(('ghost:called',)), Loc(('ghost:made',))
TABT = 'std::map<std::string, filter::Base *(*)()>'
ASSUME = ['std::map behaves as a finite map with string keys',
          'a creator is an arbitrary function: its result is arbitrary, it does not touch the factory it is registered in',
          'dlopen/dlsym return arbitrary values (dynamic loading itself is outside the contracts)']


class C(Contract):
    standalone = True
    is_method = True
    def byref(self, i): return True
    def inputs(self, ex, st):
        ex.loc_types = dict(ex.loc_types)
        ex.loc_types[TAB] = TABT
        st.store[TAB] = MapVal(z3.Const('tab.dom', z3.ArraySort(SS, z3.BoolSort())), z3.Const('tab.val', z3.ArraySort(SS, I)), 'std::string', 'void *')
        st.store[THIS.sub('m_p')] = LocPtr(REP)
        st.store[CALLS] = z3.Empty(z3.SeqSort(I))
        st.store[MADE] = z3.IntVal(0)
        self.nm = z3.Const('fi', SS)
        return THIS, self.args(ex, st)
    def args(self, ex, st):
        a = Loc(('fi#',)); st.store[a] = self.nm; ex.loc_types[a] = 'std::string'
        return [a]
    def keep(self, c):
        a, b = c.old(TAB), c.new(TAB)
        return [('the table is unchanged', z3.And(a.dom == b.dom, self.vals(a, b)))]
    def vals(self, a, b, but=None):
        k = z3.Const('k!t', SS)
        return z3.ForAll([k], z3.Implies(z3.And(a.dom[k], *([k != but] if but is not None else [])), a.val[k] == b.val[k]))
    def uncalled(self, c): return [('no creator is called', z3.Length(c.new(CALLS)) == 0)]


class Add(C):
    qname, nparams, standalone = NS + 'add_creator', 2, False
    def args(self, ex, st):
        self.cb = z3.Int('creator'); st.assume(self.cb > 0)
        return C.args(self, ex, st) + [SymPtr(self.cb, 'creator')]
    def bind(self, ex, s, this, args, n):
        self_nm = ex.sval(s, args[0], n)
        v = args[1]
        v = ex.rd(s, v, n, 'creator *') if is_lv(v) else v
        return [self_nm, v]
    def parts(self, c):
        if isinstance(c.args[0], Loc): return self.nm, self.cb
        return c.args[0], c.args[1].term
    def modifies(self, c): return [TAB]
    def havoc(self, c, lv, t):
        o = c.pre.store[TAB]
        return MapVal(z3.Const(fresh_name('dom'), o.dom.sort()), z3.Const(fresh_name('val'), o.val.sort()), o.kt, o.vt)
    def result(self, c): return z3.Bool(fresh_name('added'))
    def ensures(self, c):
        a, b = c.old(TAB), c.new(TAB)
        nm, cb = self.parts(c)
        ret = c.ret if z3.is_expr(c.ret) else z3.BoolVal(False)
        return [('succeeds exactly for a new name', ret == z3.Not(a.dom[nm])),
                ('the name is known afterwards, others as before', b.dom == z3.Store(a.dom, nm, z3.BoolVal(True))),
                ('the first creator stays', b.val[nm] == z3.If(a.dom[nm], a.val[nm], cb)),
                ('creators of other names stay', self.vals(a, b, nm))] + (self.uncalled(c) if self.cur(c) else [])
    def cur(self, c): return isinstance(c.args[0], Loc)


class Drop(C):
    qname, nparams = NS + 'drop_creator', 1
    def ensures(self, c):
        a, b = c.old(TAB), c.new(TAB)
        return [('reports whether the name was known', c.ret == a.dom[self.nm]),
                ('the name is not known afterwards, others as before', b.dom == z3.Store(a.dom, self.nm, z3.BoolVal(False))),
                ('creators of other names stay', self.vals(a, b, self.nm))] + self.uncalled(c)


class Exist(C):
    qname, nparams = NS + 'exist', 1
    def ensures(self, c): return [('reports whether the name is known', c.ret == c.old(TAB).dom[self.nm])] + self.keep(c) + self.uncalled(c)


class Create(C):
    qname, nparams = NS + 'create', 1
    def ensures(self, c):
        a = c.old(TAB)
        r = c.ret.term if isinstance(c.ret, SymPtr) else z3.IntVal(-1)
        return [('only for a known name', a.dom[self.nm]), ('calls exactly its creator, once', c.new(CALLS) == z3.Unit(a.val[self.nm])),
                ('returns what the creator made', r == c.new(MADE))] + self.keep(c)
    def throws(self, c):
        return [('fails only for an unknown name', z3.Not(c.old(TAB).dom[self.nm])), ('fails with the not-found error', z3.BoolVal('NotFound' in str(c.post.flow[1])))] + self.keep(c) + self.uncalled(c)


class AddDl(C):
    qname, nparams = NS + 'add_creator_dl', 2
    def args(self, ex, st):
        p = Loc(('path#',)); st.store[p] = z3.Const('path', SS); ex.loc_types[p] = 'std::string'
        return C.args(self, ex, st) + [p]
    def ensures(self, c):
        a, b, k = c.old(TAB), c.new(TAB), z3.Const('k!t', SS)
        return [('a known name succeeds', z3.Implies(a.dom[self.nm], c.ret)), ('success means the name is known', z3.Implies(c.ret, b.dom[self.nm])),
                ('no other name changes, no known name changes', z3.And(self.vals(a, b), z3.ForAll([k], z3.Implies(k != self.nm, a.dom[k] == b.dom[k])))),
                ('failure changes nothing', z3.Implies(z3.Not(c.ret), a.dom == b.dom))] + self.uncalled(c)


def install(ex):
    ex.heap_types = {}
    def callptr(ex, s, f, a, n):
        f = ex.rd(s, f, n) if is_lv(f) else f
        s.store[CALLS] = z3.Concat(s.store[CALLS], z3.Unit(ex.to_term(s, f)))
        v = z3.Int(fresh_name('made'))
        s.assume(v >= 0)
        s.store[MADE] = v
        s.writes = s.writes | {CALLS, MADE}
        return [(s, SymPtr(v, 'metaproxy_1::filter::Base'))]
    ex.externs['#callptr'] = callptr
    def ptr(name, ct):
        def f(ex, s, this, a, n):
            v = z3.Int(fresh_name(name)); s.assume(v >= 0)
            return [(s, SymPtr(v, ct))]
        ex.externs[name] = f
    ptr('dlopen', 'void'); ptr('dlsym', 'metaproxy_1_filter_struct')
    def dlerror(ex, s, this, a, n):
        v = z3.Int(fresh_name('dlerror')); s.assume(v > 0)
        return [(s, SymPtr(v, 'char'))]
    ex.externs['dlerror'] = dlerror


CONTRACTS = [Add(), Drop(), Exist(), Create(), AddDl()]
UNITS = [('src/factory_filter.cpp', CONTRACTS, install)]

"""Contracts for src/router_chain.cpp: a chain hands out its filters in the
order they were appended; positions are independent of each other."""
import z3
from vcx.core import *

I = z3.IntSort()
NS = 'metaproxy_1::'
REP = Loc(('rep#',))
LST = REP.sub('m_filter_list')
ET = 'const metaproxy_1::filter::Base *'
SEQ = z3.SeqSort(I)
LOG = Loc(('ghost:calls',))            # start/stop calls made so far, in order
SIG = Loc(('ghost:signo',))
ASSUME = ['std::list behaves as a sequence; const iterators stay valid when elements are appended']


REST = z3.Function('rest', SEQ, I, SEQ)         # the elements from index i on
UR = z3.Function('unfold_rest', SEQ, I, z3.BoolSort())


def rest_axioms():
    s, j = z3.Const('s!q', SEQ), z3.Int('j!q')
    fa = lambda b, p: z3.ForAll([s, j], b, patterns=[p])
    return [fa(UR(s, j), UR(s, j)), fa(z3.Implies(j >= z3.Length(s), REST(s, j) == z3.Empty(SEQ)), REST(s, j)), fa(z3.Implies(j == 0, REST(s, j) == s), REST(s, j)),
            fa(z3.Implies(z3.And(j >= 0, j < z3.Length(s)), REST(s, j) == z3.Concat(z3.Unit(s[j]), REST(s, j + 1))), z3.MultiPattern(REST(s, j), UR(s, j)))]


def called(L, log, seq, idx):
    """everything before index idx of seq was called since the loop was entered"""
    return z3.And(UR(seq, idx), z3.Concat(log, REST(seq, idx)) == z3.Concat(L.entry.store[LOG], seq))


def chain(ex, st):
    s = z3.Const('filters', SEQ)
    k = z3.Int('k')
    st.store[LST] = ListVal(s, ET)
    st.assume(z3.Length(s) < 2**60, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < z3.Length(s)), s[k] > 0)))
    ex.loc_types = dict(ex.loc_types); ex.loc_types[LST] = 'std::list<%s>' % ET
    return s


class C(Contract):
    standalone = True
    is_method = True
    def byref(self, i): return True


class Router(C):
    def inputs(self, ex, st):
        this = Loc(('this',))
        chain(ex, st)
        st.store[this.sub('m_p')] = LocPtr(REP)
        return this, self.args(ex, st)
    def args(self, ex, st): return []
    def keep(self, c): return ('leaves the chain unchanged', c.new(LST).seq == c.old(LST).seq)


class Append(Router):
    qname, nparams = NS + 'RouterChain::append', 1
    def args(self, ex, st):
        v = z3.Int('filter'); st.assume(v > 0)
        return [HLoc('metaproxy_1::filter::Base', v, ())]
    def ensures(self, c):
        return [('adds the filter at the end, keeps the others in order', c.new(LST).seq == z3.Concat(c.old(LST).seq, z3.Unit(c.args[0].term)))]


class CreatePos(Router):
    qname, nparams = NS + 'RouterChain::createpos', 0
    def ensures(self, c):
        if not isinstance(c.ret, LocPtr): return [('returns a new position', z3.BoolVal(False))]
        it = c.post.store.get(c.ret.lv.sub('it'))
        mp = c.post.store.get(c.ret.lv.sub('m_p'))
        return [('position belongs to this chain', z3.BoolVal(isinstance(mp, LocPtr) and mp.lv == REP)),
                ('position is at the first filter', it.idx == 0 if isinstance(it, IterVal) and it.lv == LST else z3.BoolVal(False)), self.keep(c)]


class Pos(C):
    def inputs(self, ex, st):
        this = Loc(('pos#',))
        s = chain(ex, st)
        ix = z3.Int('it')
        st.assume(ix >= 0, ix <= z3.Length(s))
        st.store[this.sub('it')] = IterVal(LST, ix)
        st.store[this.sub('m_p')] = LocPtr(REP)
        return this, self.args(ex, st)
    def args(self, ex, st): return []


class Move(Pos):
    qname, nparams = NS + 'RouterChain::Pos::move', 1
    def args(self, ex, st): return [SymPtr(z3.Int('route'), 'char')]
    def ensures(self, c):
        s = c.old(LST).seq
        i0, i1 = c.old(c.this.sub('it')).idx, c.new(c.this.sub('it'))
        if not isinstance(i1, IterVal): return [('position stays valid', z3.BoolVal(False))]
        i1 = i1.idx
        r = c.ret.term if isinstance(c.ret, SymPtr) else z3.IntVal(0) if isinstance(c.ret, Null) or z3.is_int_value(c.ret) else z3.IntVal(-1)
        return [('returns the filter at the position, or none at the end', r == z3.If(i0 == z3.Length(s), z3.IntVal(0), s[i0])),
                ('advances by exactly one filter, stays at the end', i1 == z3.If(i0 == z3.Length(s), i0, i0 + 1)),
                ('leaves the chain unchanged', c.new(LST).seq == s)]


class Clone(Pos):
    qname, nparams = NS + 'RouterChain::Pos::clone', 0
    def ensures(self, c):
        if not isinstance(c.ret, LocPtr) or c.ret.lv == c.this: return [('returns a new position', z3.BoolVal(False))]
        it = c.post.store.get(c.ret.lv.sub('it'))
        mp = c.post.store.get(c.ret.lv.sub('m_p'))
        i0, i1 = c.old(c.this.sub('it')).idx, c.new(c.this.sub('it')).idx
        return [('the copy belongs to the same chain', z3.BoolVal(isinstance(mp, LocPtr) and mp.lv == REP)),
                ('the copy is at the same filter', it.idx == i0 if isinstance(it, IterVal) and it.lv == LST else z3.BoolVal(False)),
                ('the original does not move', i1 == i0), ('leaves the chain unchanged', c.new(LST).seq == c.old(LST).seq)]


class StartStop(Router):
    def inputs(self, ex, st):
        r = Router.inputs(self, ex, st)
        st.store[LOG] = z3.Empty(SEQ)
        if self.sig: st.store[SIG] = r[1][0]
        return r
    sig = False
    def ensures(self, c):
        return [('calls every filter exactly once, in order', c.new(LOG) == c.old(LST).seq), self.keep(c)]
    def invariants(self, L):
        out = []
        for n, lv, v in L.all_vals():
            if isinstance(v, IterVal):
                out.append(('filters before %s were called' % n, lambda L, lv=lv: called(L, L.peek(LOG), L.peek(LST).seq, L.cur.store[lv].idx)))
        return out


class Start(StartStop):
    qname, nparams = NS + 'RouterChain::start', 0


class Stop(StartStop):
    qname, nparams, sig = NS + 'RouterChain::stop', 1, True
    def args(self, ex, st): return [ex.fresh(st, 'int', 'signo')]


def calls(ex):
    def start(ex, s, ob, a, n):
        ex.wr(s, LOG, z3.Concat(s.store[LOG], z3.Unit(term(ex, s, ob, n)))); return [(s, None)]
    def stop(ex, s, ob, a, n):
        if SIG in s.store: ex.require(s, a[0] == s.store[SIG], 'passes the signal on', n, 'pre')
        return start(ex, s, ob, a, n)
    def term(ex, s, ob, n):
        if isinstance(ob, HLoc): return ob.term
        v = ex.rd(s, ob, n) if is_lv(ob) else ob
        if isinstance(v, (SymPtr, HLoc)): return v.term
        raise Unsupported('call on %r' % (ob,), n, ex)
    for k in ('Base',):
        ex.methods[(k, 'start')] = start
        ex.methods[(k, 'stop')] = stop


def install(ex):
    ex.heap_types = {}
    calls(ex)
    ex.axioms += rest_axioms()


CONTRACTS = [Append(), CreatePos(), Move(), Clone(), Start(), Stop()]
UNITS = [('src/router_chain.cpp', CONTRACTS, install)]

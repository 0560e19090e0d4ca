"""Contracts for include/metaproxy/session.hpp.

Lock discipline: the identifier counter may be touched only while its mutex is
held.  Acquiring the mutex replaces the counter by an arbitrary larger-or-equal
value (whatever other threads did); every critical section must leave
(R) counter >= counter at acquisition and, for the identifier it hands out,
(U) counter at acquisition < identifier <= counter at release.
With (R) and (U) for every critical section identifiers handed out in two
critical sections differ, whatever the schedule: the later one starts from a
counter >= the earlier identifier."""
import os
import z3
from vcx.core import *

S = z3.StringVal
I = z3.IntSort()
NS = 'metaproxy_1::Session::'
THIS = Loc(('this',))
ID, CL = THIS.sub('m_id'), THIS.sub('m_close')
CNT = Loc(('global:m_global_id',))
HELD = {'m_mutex': Loc(('ghost:held m_mutex',)), 'm_map_mutex': Loc(('ghost:held m_map_mutex',))}
ACQ, REL, NACQ = Loc(('ghost:counter at acquisition',)), Loc(('ghost:counter at release',)), Loc(('ghost:critical sections',))
GUARDS = {'m_global_id': 'm_mutex', 'm_map': 'm_map_mutex'}
ASSUME = ['boost::mutex provides mutual exclusion and the usual memory ordering (data-race freedom is then sequential consistency)',
          'fewer than 2^64 sessions are created in one process',
          'std::map orders sessions by operator<, which is proved to compare identifiers']


def sess(ex, st, lv, name):
    ex.loc_types = dict(ex.loc_types)
    ex.loc_types[lv.sub('m_id')] = 'unsigned long'; ex.loc_types[lv.sub('m_close')] = 'bool'
    st.store[lv.sub('m_id')] = ex.fresh(st, 'unsigned long', name + '.id')
    st.store[lv.sub('m_close')] = z3.Bool(name + '.closed')


class C(Contract):
    standalone = True
    is_method = True
    own = True
    def byref(self, i): return True
    def inputs(self, ex, st):
        ex.loc_types = dict(ex.loc_types)
        ex.loc_types[CNT] = 'unsigned long'
        for h in HELD.values(): st.store[h] = z3.BoolVal(False)
        st.store[CNT] = z3.Int('counter'); st.store[NACQ] = z3.IntVal(0)
        st.store[ACQ] = st.store[REL] = z3.IntVal(-1)
        st.assume(st.store[CNT] >= 0, st.store[CNT] < 2**64 - 1)
        if self.own: sess(ex, st, THIS, 'this')
        return THIS, self.args(ex, st)
    def args(self, ex, st): return []
    def ensures(self, c): return self.post(c) + self.unlocked(c)
    def unlocked(self, c): return [('no lock is kept', z3.And(*[z3.Not(c.new(h)) for h in HELD.values()]))]
    def same(self, c): return [('the session is unchanged', z3.And(c.new(ID) == c.old(ID), c.new(CL) == c.old(CL)))]
    def nocount(self, c): return [('no identifier is consumed', c.new(NACQ) == 0)]


class Other(C):
    def args(self, ex, st):
        o = Loc(('other#',))
        sess(ex, st, o, 'other')
        self.o = o
        return [o]


class New(C):
    qname, nparams, own = NS + 'Session', 0, False
    def post(self, c):
        return [('takes its identifier in one critical section', c.new(NACQ) == 1),
                ('the identifier is above every one handed out before', c.new(ID) > c.new(ACQ)),
                ('the counter covers the identifier when the lock is released', c.new(ID) <= c.new(REL)),
                ('a new session is open', z3.Not(c.new(CL)))]


class Copy(Other):
    qname, nparams, own, types = NS + 'Session', 1, False, ('const',)
    def post(self, c):
        return [('has the identifier and closed mark of its source', z3.And(c.new(ID) == c.old(self.o.sub('m_id')), c.new(CL) == c.old(self.o.sub('m_close'))))] + self.nocount(c)


class Assign(Other):
    qname, nparams = NS + 'operator=', 1
    def post(self, c):
        return [('has the identifier and closed mark of its source', z3.And(c.new(ID) == c.old(self.o.sub('m_id')), c.new(CL) == c.old(self.o.sub('m_close'))))] + self.nocount(c)


class AssignSelf(C):
    qname, nparams, label = NS + 'operator=', 1, 'to itself'
    def args(self, ex, st): return [THIS]
    def post(self, c): return self.same(c)


class Less(Other):
    qname, nparams = NS + 'operator<', 1
    def post(self, c): return [('compares identifiers', c.ret == (c.old(ID) < c.old(self.o.sub('m_id'))))] + self.same(c)


class Eq(Other):
    qname, nparams = NS + 'operator==', 1
    def post(self, c): return [('compares identifiers', c.ret == (c.old(ID) == c.old(self.o.sub('m_id'))))] + self.same(c)


class Id(C):
    qname, nparams = NS + 'id', 0
    def post(self, c): return [('returns the identifier', c.ret == c.old(ID))] + self.same(c)


class IsClosed(C):
    qname, nparams = NS + 'is_closed', 0
    def post(self, c): return [('returns the closed mark', c.ret == c.old(CL))] + self.same(c)


class Close(C):
    qname, nparams = NS + 'close', 0
    def post(self, c): return [('is closed afterwards', c.new(CL)), ('identifier is kept', c.new(ID) == c.old(ID))]


# ---- session_map
MAP = THIS.sub('m_map')
MAPT = 'std::map<metaproxy_1::Session, metaproxy_1::session_map<int>::SessionItem>'
M0, M1 = Loc(('ghost:table at acquisition',)), Loc(('ghost:table at release',))


class Table(C):
    own = False
    def inputs(self, ex, st):
        r = C.inputs(self, ex, st)
        ex.loc_types[MAP] = MAPT
        st.store[MAP] = self.mk('table')
        st.store[M0] = st.store[M1] = st.store[MAP].dom
        o = Loc(('key#',)); sess(ex, st, o, 'key')
        self.k = st.store[o.sub('m_id')]
        t = Loc(('t#',)); st.store[t] = ex.fresh(st, 'int', 't'); ex.loc_types[t] = 'int'
        return THIS, ([t] if self.nparams == 2 else []) + [o]
    @staticmethod
    def mk(nm):
        return MapVal(z3.Const(nm + '.dom', z3.ArraySort(I, z3.BoolSort())), z3.Const(nm + '.val', z3.ArraySort(I, I)), 'metaproxy_1::Session', 'metaproxy_1::session_map<int>::SessionItem')
    def one(self, c): return [('uses the table in one critical section', c.new(NACQ) == 1)]


class MCreate(Table):
    qname, nparams = 'metaproxy_1::session_map::create', 2
    def post(self, c): return self.one(c) + [('the entry exists, others as before', c.new(M1) == z3.Store(c.new(M0), self.k, z3.BoolVal(True)))]


class MRelease(Table):
    qname, nparams = 'metaproxy_1::session_map::release', 1
    def post(self, c): return self.one(c) + [('the entry is gone, others as before', c.new(M1) == z3.Store(c.new(M0), self.k, z3.BoolVal(False)))]


class MExist(Table):
    qname, nparams = 'metaproxy_1::session_map::exist', 1
    def post(self, c): return self.one(c) + [('reports whether the entry exists', c.ret == c.new(M0)[self.k]), ('the table is unchanged', c.new(M1) == c.new(M0))]


def install(ex):
    ex.heap_types = {}
    ex.guards = GUARDS
    def nm(m): return str(m[-1]).replace('global:', '') if isinstance(m, Loc) else None
    def acquire(ex, s, m, n):
        k = nm(m)
        if k not in HELD: return
        ex.require(s, z3.Not(s.store[HELD[k]]), 'lock is not already held', n, 'lock')
        w = {HELD[k], NACQ}
        s.store[HELD[k]] = z3.BoolVal(True)
        s.store[NACQ] = s.store[NACQ] + 1
        if k == 'm_mutex':
            v = z3.Int(fresh_name('counter'))
            s.assume(v >= s.store[CNT], v < 2**64 - 1)       # what other threads may have done
            s.store[CNT] = s.store[ACQ] = v
            w |= {CNT, ACQ}
        elif MAP in s.store:
            s.store[MAP] = Table.mk(fresh_name('table'))
            s.store[M0] = s.store[MAP].dom
            w |= {MAP, M0}
        s.writes = s.writes | w
    def release(ex, s, m):
        k = nm(m)
        if k not in HELD: return
        s.store[HELD[k]] = z3.BoolVal(False)
        if k == 'm_mutex':
            ex.require(s, s.store[CNT] >= s.store[ACQ], 'the counter never decreases', None, 'lock')
            s.store[REL] = s.store[CNT]
        elif MAP in s.store: s.store[M1] = s.store[MAP].dom
        s.writes = s.writes | {HELD[k], REL, M1}
    def guard(ex, s, lv, g, n):
        ex.require(s, s.store[HELD[g]], '%s is accessed only under its lock' % str(lv[-1]).replace('global:', ''), n, 'lock')
    def lk(ex, s, o, a, n): acquire(ex, s, o, n); return [(s, None)]
    def ul(ex, s, o, a, n):
        k = nm(o)
        if k in HELD: ex.require(s, s.store[HELD[k]], 'only a held lock is released', n, 'lock')
        release(ex, s, o); return [(s, None)]
    ex.externs.update({'#lock_acquire': acquire, '#lock_release': release, '#guard': guard})
    ex.methods[('mutex', 'lock')] = lk
    ex.methods[('mutex', 'unlock')] = ul
    def mapkey(ex, s, v, m, n):
        if isinstance(v, (Loc, HLoc)): return ex.rd(s, v.sub('m_id'), n, 'unsigned long')
        if isinstance(v, StructVal): return v.fields[('m_id',)]
    ex.externs['#mapkey'] = mapkey


CONTRACTS = [New(), Copy(), Assign(), AssignSelf(), Less(), Eq(), Id(), IsClosed(), Close(), MCreate(), MRelease(), MExist()]
UNITS = [(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'session_tu.cpp'), CONTRACTS, install)]

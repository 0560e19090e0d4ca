"""Contracts for src/filter_auth_simple.cpp: who gets past the filter.

Registers are maps; `userBySession` is shared between threads and guarded by
the filter's mutex (what other threads do while it is not held only concerns
other sessions: a session is served by one thread at a time).  Class
invariant: a remembered user has a name and is in the register."""
import z3
from vcx.core import *
from . import pkg, zutil
from .pkg import *
from .zutil import arr, sz, t, LOW, cstr, KINDS

SEQS = z3.SeqSort(St)
S = z3.StringVal
A_ = 'metaproxy_1::filter::AuthSimple::'
PDB = 'metaproxy_1::filter::AuthSimple::Rep::PasswordAndDBs'
THIS, REP, PW = Loc(('this',)), Loc(('rep#',)), Loc(('password#',))
UREG, TREG, USES, DISC = REP.sub('userRegister'), REP.sub('targetsByUser'), REP.sub('userBySession'), REP.sub('discardUnauthorisedTargets')
GOTU, GOTT = REP.sub('got_userRegister'), REP.sub('got_targetRegister')
HELD, VHO, WENT = Loc(('ghost:held mutex',)), Loc(('virtual hosts of the request#',)), Loc(('went to#',))
HAS = z3.Function('among_from', SEQS, I, St, Bo)     # some of the names from a position on is equal to a text up to case
URH = z3.Function('unfold_among', I, Bo)
DERR, DADD = z3.Function('response_error', I, I), z3.Function('response_text', I, St)
FD = z3.Int('first denied name')
TG = z3.Const('targets asked for', SEQS)
AUTH, GOOD = z3.Function('authorised_from', SEQS, I, SEQS), z3.Function('first_and_authorised_from', SEQS, I, SEQS)
URF = z3.Function('unfold_authorised', I, Bo)
AUTHL = z3.Const('authorised targets', SEQS)
FD_ = z3.Function('first_denied_from', I, I)
FDT = FD_(0)
ASSUME = pkg.ASSUME + zutil.ASSUME + ['database_name_normalize, remove_vhost_otherinfo, set_vhost_otherinfo and the create functions of odr are used through their contracts (C15, C17)',
         'packages of one session are handled one after the other']


def allowed(dbs, name): return z3.Or(HAS(dbs, 0, LOW(name)), HAS(dbs, 0, LOW(S('*'))))


def axioms():
    q, k, x = z3.Const('q!h', SEQS), z3.Int('k!h'), z3.String('x!h')
    return elem_axioms() + [z3.ForAll([k], URH(k), patterns=[URH(k)]), z3.ForAll([q, k, x], z3.Implies(k == z3.Length(q), z3.Not(HAS(q, k, x))), patterns=[HAS(q, k, x)]),
            z3.ForAll([q, k, x], z3.Implies(z3.And(k >= 0, k < z3.Length(q)), HAS(q, k, x) == z3.Or(LOW(q[k]) == x, HAS(q, k + 1, x))), patterns=[z3.MultiPattern(HAS(q, k, x), URH(k))])]


class C(Contract):
    standalone = True
    def byref(self, i): return True


class CC(Contract):
    assumed = True
    is_method = True
    def byref(self, i): return True


# ------------------------------------------------------------------ credentials
def credentials(ex, st, req, pw):
    """(user, password) of an init request; the password stays as it was if none is given"""
    A = lambda f, ty='char *': arr(ex, st, 'Z_IdAuthentication', f, ty)
    a = arr(ex, st, 'Z_InitRequest', 'idAuthentication', 'Z_IdAuthentication *')[req]
    w = A('which', 'int')[a]
    o = cstr(A('u.open')[a])
    ip = A('u.idPass', 'Z_IdPass *')[a]
    B = lambda f: arr(ex, st, 'Z_IdPass', f, 'char *')[ip]
    p = zutil.NXT(o, z3.IntVal(0), z3.IntVal(47))
    isopen, isip = z3.And(a != 0, w == OPEN), z3.And(a != 0, w == IDPASS)
    user = z3.If(isopen, z3.If(p < 0, o, z3.SubString(o, 0, p)), z3.If(isip, z3.If(B('userId') != 0, cstr(B('userId')), S('')), S('')))
    pas = z3.If(isopen, z3.If(p < 0, pw, z3.SubString(o, p + 1, z3.Length(o) - p - 1)), z3.If(z3.And(isip, B('password') != 0), cstr(B('password')), pw))
    return user, pas


OPEN, IDPASS = 1, 2
AUTHP = {('Z_IdAuthentication', 'u.open'): OPEN, ('Z_IdAuthentication', 'u.idPass'): IDPASS}


class GetUser(C):
    qname, nparams = 'get_user', 2
    standalone = False
    def inputs(self, ex, st):
        ex.loc_types = dict(ex.loc_types); ex.loc_types[PW] = 'std::string'
        st.store[PW] = z3.String('password0')
        return None, [sz(st, 'initReq', 'Z_InitRequest', True), PW]
    def requires(self, c): return [('init request present', t(c.args[0]) > 0)]
    def modifies(self, c): return [c.args[1]]
    def result(self, c): return z3.String(fresh_name('user'))
    def havoc(self, c, lv, ty): return z3.String(fresh_name('password'))
    def ensures(self, c):
        u, p = credentials(c.ex, c.pre, t(c.args[0]), c.old(c.args[1]))
        return [('the user is the one named in the request', c.ret == u), ('the password is the one given in the request', c.new(c.args[1]) == p)]


class Contains(C):
    qname, nparams = 'contains', 2
    standalone = False
    def byref(self, i): return False
    def inputs(self, ex, st):
        ex.axioms = list(ex.axioms) + axioms()
        q = z3.Const('list', SEQS); st.assume(z3.Length(q) < 2**60)
        return None, [ListVal(q, 'std::string'), z3.String('thing')]
    def result(self, c): return z3.Bool(fresh_name('contains'))
    def ensures(self, c):
        q = c.args[0]
        q = (c.old(q) if is_lv(q) else q).seq
        x = c.args[1] if z3.is_expr(c.args[1]) else c.old(c.args[1])
        return [('true exactly if a name of the list is equal up to case', c.ret == HAS(q, 0, LOW(x)))]
    def invariants(self, L):
        out = []
        strs = [(n, lv) for n, lv, v in L.all_vals() if z3.is_expr(v) and z3.is_string(v)]
        for n, lv, v in L._vals():
            if isinstance(v, IterVal):
                for n2, lv2 in strs:
                    for f, nm in ((LOW, ''), (lambda x: x, 'normalised ')):
                        def g(L, lv=lv, lv2=lv2, f=f):
                            q, i, x = L.peek(L.cur.store[lv].lv).seq, L.cur.store[lv].idx, f(L.peek(lv2))
                            return z3.And(URH(i), HAS(q, i, x) == HAS(q, 0, x))
                        out.append(('%s%s is among the names from %s on or not at all' % (nm, n2, n), g))
        return out


class SplitDb(C):
    """appends the parts of a list separated by commas"""
    qname, nparams = 'split_db', 2
    def inputs(self, ex, st):
        ex.axioms = list(ex.axioms) + comma_axioms()
        x = z3.String('databases'); self.x = x
        k = z3.Int('k!z')
        st.assume(z3.Length(x) < 2**60)
        l = Loc(('dbs#',))
        ex.loc_types = dict(ex.loc_types); ex.loc_types[l] = 'std::list<std::string>'
        st.store[l] = ListVal(z3.Const('dbs0', SEQS), 'std::string')
        self.l = l
        return None, [l, BufPtr(str_buf(x), z3.IntVal(0))]
    def ensures(self, c): return [('appends the parts between the commas, in order', c.new(self.l).seq == DONE(c.old(self.l).seq, self.x, 0))]
    def invariants(self, L):
        out = []
        for n, lv, v in L._vals():
            if isinstance(v, BufPtr):
                out.append(('%s is inside the text' % n, lambda L, lv=lv: z3.And(L.peek(lv).off >= 0, L.peek(lv).off <= z3.Length(self.x))))
                out.append(('%s is not null' % n, lambda L, lv=lv: z3.Not(L.cur.store[lv].null)))
                out.append(('parts listed and parts from %s on are all parts' % n, lambda L, lv=lv: DONE(L.peek(self.l).seq, self.x, L.peek(lv).off) == DONE(L.peek0(self.l).seq, self.x, 0) if isinstance(L.entry.store.get(lv), BufPtr) else None))
        return out
    def measures(self, L): return [('text after %s' % n, lambda L, lv=lv: z3.Length(self.x) - L.peek(lv).off) for n, lv, v in L._vals() if isinstance(v, BufPtr)]


COMMA = z3.Function('split_at_comma', St, I, SEQS)
DONE = z3.Function('with_rest_split', SEQS, St, I, SEQS)         # a list and the parts of the text from a position on
def comma_axioms():
    l, x, o = z3.Const('l!c', SEQS), z3.Const('x!c', St), z3.Int('o!c')
    nx = zutil.NXT(x, o, 44)
    return [z3.ForAll([l, x, o], DONE(l, x, o) == z3.If(nx < 0, z3.Concat(l, z3.Unit(z3.SubString(x, o, z3.Length(x) - o))), DONE(z3.Concat(l, z3.Unit(z3.SubString(x, o, nx - o))), x, nx + 1)), patterns=[z3.MultiPattern(DONE(l, x, o), nx)])]


class CommaLemma(Contract):
    qname = 'lemma: a list and the parts of a text to append to it'
    standalone = True
    def lemmas(self, ex):
        l, x, o = z3.Const('l', SEQS), z3.String('x'), z3.Int('o')
        nx = zutil.NXT(x, o, 44)
        part = z3.Unit(z3.SubString(x, o, nx - o))
        done = lambda l, o: z3.Concat(l, COMMA(x, o))
        rest = z3.Unit(z3.SubString(x, o, z3.Length(x) - o))
        return [('the last part', [nx < 0, COMMA(x, o) == rest], done(l, o) == z3.Concat(l, rest)),
                ('a part before a comma', [nx >= 0, COMMA(x, o) == z3.Concat(part, COMMA(x, nx + 1))], done(l, o) == done(z3.Concat(l, part), nx + 1))]


# ------------------------------------------------------------------ the filter
class F(C):
    is_method = True
    kind = None
    def inputs(self, ex, st):
        ex.axioms = list(ex.axioms) + axioms()
        pkg.package(ex, st, PKG, 'package')
        T = ex.loc_types
        A = lambda a, b: z3.ArraySort(a, b)
        st.store[THIS.sub('m_p')] = LocPtr(REP)
        for l, n in ((GOTU, 'user register'), (GOTT, 'target register'), (DISC, 'discard')): st.store[l] = z3.Bool(n); T[l] = 'bool'
        T[UREG], T[TREG], T[USES] = 'std::map<std::string, %s>' % PDB, 'std::map<std::string, std::list<std::string>>', 'std::map<metaproxy_1::Session, std::string>'
        ur = st.store[UREG] = MapVal(z3.Const('users.dom', A(St, Bo)), z3.Const('users.val', A(St, I)), 'std::string', PDB)
        st.store[TREG] = MapVal(z3.Const('targets.dom', A(St, Bo)), z3.Const('targets.val', A(St, SEQS)), 'std::string', 'std::list<std::string>')
        us = st.store[USES] = MapVal(z3.Const('sessions.dom', A(I, Bo)), z3.Const('sessions.val', A(I, St)), 'metaproxy_1::Session', 'std::string')
        ex.heap_types[(PDB, 'password')], ex.heap_types[(PDB, 'dbs')] = 'std::string', 'std::list<std::string>'
        k, u = z3.Int('k!s'), z3.String('u!s')
        st.assume(z3.ForAll([u], z3.Implies(ur.dom[u], z3.And(ur.val[u] > 0, ur.val[u] < st.alloc)), patterns=[ur.val[u]]))
        st.assume(z3.ForAll([k], z3.Implies(us.dom[k], z3.And(us.val[k] != S(''), ur.dom[us.val[k]])), patterns=[us.val[k]]))
        st.store[HELD] = z3.BoolVal(False); T[HELD] = 'bool'
        st.store[WENT] = z3.Empty(z3.SeqSort(I)); T[WENT] = 'std::vector<int>'
        st.store[VHO] = TG; T[VHO] = 'std::vector<std::string>'
        st.assume(z3.Length(TG) < 2**60)
        g = gptr(st, PKG.sub(GREQ))
        self.g = g
        a = self.apdu = arr(ex, st, 'Z_GDU', 'u.z3950', 'Z_APDU *')[g]
        if self.kind:
            st.assume(g > 0, arr(ex, st, 'Z_GDU', 'which')[g] == 1, a > 0, arr(ex, st, 'Z_APDU', 'which')[a] == KINDS[self.kind])
            self.req = arr(ex, st, 'Z_APDU', 'u.' + self.kind, 'Z_S%s *' % self.kind[1:] if self.kind != 'initRequest' else 'Z_InitRequest *')[a]
            st.assume(self.req > 0)
        return THIS, self.args(ex, st)
    def args(self, ex, st): return [PKG]
    def denied(self, c, kind, err, text):
        """the answer is a refusal and the session is closed"""
        ex = c.ex
        w = View(ex, c.post, PKG.sub(GRES)); g = w.root()
        a = w('Z_GDU', 'u.z3950', g, 'Z_APDU *')
        r = [g != 0, w('Z_GDU', 'which', g) == 1, w('Z_APDU', 'which', a) == KINDS[kind], NEWFOR(a) == self.apdu, DERR(a) == err, DADD(a) == text]
        if kind == 'initResponse':
            ir = w('Z_APDU', 'u.initResponse', a, 'Z_InitResponse *')
            r.append(w('int', '', w('Z_InitResponse', 'result', ir, 'int *')) == 0)
        return z3.And(*r)
    def closed(self, c): return c.new(PKG.sub('m_session').sub('m_close'))
    def closed0(self, c): return c.old(PKG.sub('m_session').sub('m_close'))
    def moves(self, c): return c.new(PKG.sub('#moves'))
    def same_registers(self, c):
        a, b, x, y = c.old(UREG), c.new(UREG), c.old(TREG), c.new(TREG)
        h = lambda st, f, ty: arr(c.ex, st, PDB, f, ty)
        return [('the registers are unchanged', z3.And(a.dom == b.dom, a.val == b.val, x.dom == y.dom, x.val == y.val, h(c.pre, 'password', 'std::string') == h(c.post, 'password', 'std::string'),
                                                       h(c.pre, 'dbs', 'std::list<std::string>') == h(c.post, 'dbs', 'std::list<std::string>'))),
                ('no lock is kept', z3.Not(c.new(HELD)))]
    def same_users(self, c): return ('the users of sessions are unchanged', z3.And(c.old(USES).dom == c.new(USES).dom, c.old(USES).val == c.new(USES).val))
    def user(self, c): return c.old(USES).val[c.old(PKG.sub('m_session').sub('m_id'))]
    def known(self, c): return c.old(USES).dom[c.old(PKG.sub('m_session').sub('m_id'))]


class RejectInit(F):
    qname, nparams, is_method, kind = 'reject_init', 3, False, 'initRequest'
    def inputs(self, ex, st):
        F.inputs(self, ex, st)
        x = z3.String('text')
        st.assume(z3.Not(z3.Contains(x, S('\x00'))), z3.Length(x) < 2**31)
        e = ex.fresh(st, 'int', 'error')
        return None, [PKG, e, BufPtr(str_buf(x), z3.IntVal(0))]
    def ensures(self, c):
        e = c.args[1]
        return [('answers with a refusal and the reason', self.denied(c, 'initResponse', z3.If(e == 0, z3.IntVal(1014), e), z3.String('text'))), ('closes the session', self.closed(c)), ('the request goes no further', self.moves(c) == 0)]


class Init(F):
    qname, nparams, kind = A_ + 'process_init', 1, 'initRequest'
    def ensures(self, c):
        u, p = credentials(c.ex, c.pre, self.req, S(''))
        ur = c.old(UREG)
        ok = z3.And(u != S(''), ur.dom[u], arr(c.ex, c.pre, PDB, 'password', 'std::string')[ur.val[u]] == p)
        sid = c.old(PKG.sub('m_session').sub('m_id'))
        a, b = c.old(USES), c.new(USES)
        return [('the request goes on exactly if user and password are registered', self.moves(c) == z3.If(ok, 1, 0)),
                ('otherwise it is refused', z3.Implies(z3.Not(ok), self.denied(c, 'initResponse', z3.IntVal(1014), z3.If(u == S(''), S('no credentials supplied'), S('username/password combination rejected'))))),
                ('and the session is closed', z3.Implies(z3.Not(ok), self.closed(c))),
                ('the user of the session is remembered exactly then, no other session is touched', z3.If(ok, z3.And(b.dom == z3.Store(a.dom, sid, True), b.val == z3.Store(a.val, sid, u)), z3.And(a.dom == b.dom, a.val == b.val)))] + self.same_registers(c)


DBN = 'Z_DatabaseName *'


class Names(F):
    """search and scan: every database must be allowed to the user"""
    resp = ''
    def inputs(self, ex, st):
        r = F.inputs(self, ex, st)
        R = 'Z_S' + self.kind[1:]
        self.num = arr(ex, st, R, 'num_databaseNames')[self.req]
        base = arr(ex, st, R, 'databaseNames', 'char **')[self.req]
        self.name = lambda j: cstr(arr(ex, st, DBN, '', 'char *')[ELEM(base, j)])
        nm = arr(ex, st, DBN, '', 'char *')
        j = z3.Int('j!d')
        us = st.store[USES]
        self.dbs = arr(ex, st, PDB, 'dbs', 'std::list<std::string>')[st.store[UREG].val[us.val[st.store[PKG.sub('m_session').sub('m_id')]]]]
        ok = lambda j: allowed(self.dbs, cstr(nm[ELEM(base, j)]))
        st.assume(self.num >= 0, self.num < 2**28, BYTES(base) == 8 * self.num, z3.Implies(self.num > 0, base > 0), FD >= 0, FD <= self.num,
                  z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < FD), ok(j)), patterns=[ELEM(base, j)]), z3.Implies(FD < self.num, z3.Not(ok(FD))),
                  z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.num), nm[ELEM(base, j)] > 0), patterns=[ELEM(base, j)]))
        return r
    def ensures(self, c):
        ok = z3.Or(z3.Not(self.known(c)), FD == self.num)
        return [('the request goes on exactly if all its databases are allowed to the user of the session', self.moves(c) == z3.If(ok, 1, 0)),
                ('otherwise it is refused, naming the first database that is not', z3.Implies(z3.Not(ok), self.denied(c, self.resp, z3.IntVal(236), self.name(FD)))),
                ('and the session is closed', z3.Implies(z3.Not(ok), self.closed(c))), self.same_users(c)] + self.same_registers(c)
    def invariants(self, L):
        return [('every name before %s is allowed' % n, lambda L, lv=lv: z3.And(L.peek(lv) >= 0, L.peek(lv) <= FD)) for n, lv, v in L._vals() if z3.is_expr(v) and z3.is_int(v)]
    def measures(self, L): return [('names after %s' % n, lambda L, lv=lv: self.num - L.peek(lv)) for n, lv, v in L._vals() if z3.is_expr(v) and z3.is_int(v)]


class Search(Names): qname, nparams, kind, resp = A_ + 'process_search', 1, 'searchRequest', 'searchResponse'
class Scan(Names): qname, nparams, kind, resp = A_ + 'process_scan', 1, 'scanRequest', 'scanResponse'


def auth_def():
    """the definition: of the targets from a position on, those that are authorised, in order"""
    q, k = z3.Const('q!a', SEQS), z3.Int('k!a')
    return [z3.ForAll([k], URF(k), patterns=[URF(k)]), z3.ForAll([q, k], z3.Implies(k >= z3.Length(q), AUTH(q, k) == z3.Empty(SEQS)), patterns=[AUTH(q, k)]),
            z3.ForAll([q, k], z3.Implies(z3.And(k >= 0, k < z3.Length(q)), AUTH(q, k) == z3.If(allowed(AUTHL, q[k]), z3.Concat(z3.Unit(q[k]), AUTH(q, k + 1)), AUTH(q, k + 1))), patterns=[z3.MultiPattern(AUTH(q, k), URF(k))])]


def auth_axioms():
    """what the loop needs to know of GOOD(q, i) = the first i targets and the authorised ones after them; proved in AuthLemma"""
    q, k = z3.Const('q!a', SEQS), z3.Int('k!a')
    return [z3.ForAll([k], URF(k), patterns=[URF(k)]), GOOD(TG, 0) == AUTH(TG, 0), z3.ForAll([q, k], z3.Implies(k == z3.Length(q), GOOD(q, k) == q), patterns=[GOOD(q, k)]),
            z3.ForAll([q, k], z3.Implies(z3.And(k >= 0, k < z3.Length(q), allowed(AUTHL, q[k])), GOOD(q, k) == GOOD(q, k + 1)), patterns=[z3.MultiPattern(GOOD(q, k), URF(k))])]


def erase_lemma(q, i, r): return [z3.Implies(z3.Not(allowed(AUTHL, q[i])), GOOD(r, i) == GOOD(q, i))]


class ListLemma(Contract):
    qname = 'lemma: two laws of lists, whatever their elements (proved for integers)'
    standalone = True
    def lemmas(self, ex):
        ex.axioms = []
        x, y = z3.Consts('x y', z3.SeqSort(I))
        i, j = z3.Ints('i j')
        X = z3.Length(x)
        return [('taking one more element', [i >= 0, i < X], z3.SubSeq(x, 0, i + 1) == z3.Concat(z3.SubSeq(x, 0, i), z3.Unit(x[i]))),
                ('elements after an erased one', [i >= 0, i < X, y == z3.Concat(z3.SubSeq(x, 0, i), z3.SubSeq(x, i + 1, X - i - 1)), j >= i, j < X - 1], y[j] == x[j + 1])]


class AuthLemma(Contract):
    qname = 'lemma: keeping an authorised target and erasing another leave the targets to go to as they are'
    standalone = True
    def lemmas(self, ex):
        ex.axioms = list(ex.axioms) + axioms() + auth_def()
        q, r = z3.Const('q', SEQS), z3.Const('r', SEQS)
        i, j = z3.Ints('i j')
        L = z3.Length(q)
        good = lambda q, i: z3.Concat(z3.SubSeq(q, 0, i), AUTH(q, i))
        er = [i >= 0, i < L, r == z3.Concat(z3.SubSeq(q, 0, i), z3.SubSeq(q, i + 1, L - i - 1))]
        ok = allowed(AUTHL, q[i])
        return [('erasing: the length', er, z3.Length(r) == L - 1),
                ('erasing: the part before it', er, z3.SubSeq(r, 0, i) == z3.SubSeq(q, 0, i)),
                ('authorised after an erased one, at the end', er + [z3.Length(r) == L - 1, j >= L - 1], AUTH(r, j) == AUTH(q, j + 1)),
                ('authorised after an erased one, inductive step', [i >= 0, i < L, z3.Length(r) == L - 1, r[j] == q[j + 1], j >= i, j < L - 1, URF(j), URF(j + 1), AUTH(r, j + 1) == AUTH(q, j + 2)], AUTH(r, j) == AUTH(q, j + 1)),
                ('erasing one that is not authorised', [i >= 0, i < L, z3.SubSeq(r, 0, i) == z3.SubSeq(q, 0, i), AUTH(r, i) == AUTH(q, i + 1), URF(i), z3.Not(ok)], good(r, i) == good(q, i)),
                ('keeping an authorised one', [i >= 0, i < L, URF(i), ok, z3.SubSeq(q, 0, i + 1) == z3.Concat(z3.SubSeq(q, 0, i), z3.Unit(q[i]))], good(q, i) == good(q, i + 1)),
                ('at the end', [], good(q, L) == q), ('at the start', [], good(q, z3.IntVal(0)) == AUTH(q, 0))]


class Targets(F):
    qname, nparams, kind = A_ + 'check_targets', 1, 'initRequest'
    def inputs(self, ex, st):
        r = F.inputs(self, ex, st)
        u, p = credentials(ex, st, self.req, S(''))
        m = st.store[TREG]
        st.assume(AUTHL == z3.If(m.dom[u], m.val[u], z3.Empty(SEQS)), z3.Length(AUTHL) < 2**60)
        ok = lambda k: allowed(AUTHL, TG[k])
        k = z3.Int('k!t')
        ex.axioms = list(ex.axioms) + auth_axioms()
        ex.axioms += [z3.ForAll([k], z3.Implies(k == z3.Length(TG), FD_(k) == k), patterns=[FD_(k)]),
                      z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < z3.Length(TG)), FD_(k) == z3.If(ok(k), FD_(k + 1), k)), patterns=[z3.MultiPattern(FD_(k), URF(k))])]
        ex.erase_lemma = erase_lemma
        return r
    def ensures(self, c):
        d = c.old(DISC)
        rest = AUTH(TG, 0)
        one = z3.And(z3.Not(d), FDT < z3.Length(TG))
        none = z3.And(z3.Not(one), rest == z3.Empty(SEQS))
        ok = z3.Not(z3.Or(one, none))
        return [('the request goes on exactly if all its targets are authorised, or some where others are dropped', self.moves(c) == z3.If(ok, 1, 0)),
                ('it goes on to the authorised targets, in order', z3.Implies(ok, c.new(VHO) == rest)),
                ('a target that is not authorised is named in the refusal', z3.Implies(one, self.denied(c, 'initResponse', z3.IntVal(236), TG[FDT]))),
                ('without any authorised target it is refused', z3.Implies(none, self.denied(c, 'initResponse', z3.IntVal(236), S('all databases')))),
                ('and the session is closed', z3.Implies(z3.Not(ok), self.closed(c))), self.same_users(c)] + self.same_registers(c)
    def invariants(self, L):
        out = []
        for n, lv, v in L._vals():
            if isinstance(v, IterVal):
                sq = lambda L, lv=lv: (L.peek(L.cur.store[lv].lv).seq, L.cur.store[lv].idx)
                def f(L, sq=sq):
                    q, i = sq(L)
                    return z3.And(URF(i), GOOD(q, i) == GOOD(TG, 0))
                def g(L, sq=sq):
                    q, i = sq(L)
                    return z3.Or(L.peek(DISC), z3.And(q == TG, FD_(i) == FDT))
                out += [('targets kept before %s and authorised ones after it' % n, f), ('every target before %s was authorised unless they are dropped' % n, g)]
        return out
    def measures(self, L): return [('targets left after %s' % n, lambda L, lv=lv: z3.Length(L.peek(L.cur.store[lv].lv).seq) - L.cur.store[lv].idx) for n, lv, v in L._vals() if isinstance(v, IterVal)]


CODES = dict(process_init=1, process_search=2, process_scan=3, check_targets=4)


def step(nm, kind):
    class Step(CC):
        qname, nparams = A_ + nm, 1
        def requires(self, c):
            g = gptr(c.pre, PKG.sub(GREQ))
            a = arr(c.ex, c.pre, 'Z_GDU', 'u.z3950', 'Z_APDU *')[g]
            return [('only %s requests get there' % kind, z3.And(g > 0, arr(c.ex, c.pre, 'Z_GDU', 'which')[g] == 1, arr(c.ex, c.pre, 'Z_APDU', 'which')[a] == KINDS[kind]))]
        def modifies(self, c): return [WENT]
        def ensures(self, c): return [('', c.new(WENT) == z3.Concat(c.old(WENT), z3.Unit(z3.IntVal(CODES[nm]))))]
    return Step()


class Process(F):
    qname, nparams = A_ + 'process', 1
    def inputs(self, ex, st):
        r = F.inputs(self, ex, st)
        w = arr(ex, st, 'Z_APDU', 'which')[self.apdu]
        z = z3.And(self.g != 0, arr(ex, st, 'Z_GDU', 'which')[self.g] == 1)
        is_ = lambda k: z3.And(z, w == KINDS[k])
        U, T = st.store[GOTU], st.store[GOTT]
        one = lambda c: z3.Unit(z3.IntVal(c))
        self.exp = z3.If(z3.And(U, is_('initRequest')), one(1), z3.If(z3.And(U, is_('searchRequest')), one(2), z3.If(z3.And(U, is_('scanRequest')), one(3), z3.If(z3.And(T, is_('initRequest')), one(4), z3.Empty(z3.SeqSort(I))))))
        return r
    def ensures(self, c):
        return [('each request gets the check its kind and the registers call for', c.new(WENT) == self.exp),
                ('everything else is passed on, once', self.moves(c) == z3.If(z3.Length(self.exp) == 0, 1, 0)), self.same_users(c)] + self.same_registers(c)


def install(ex):
    zutil.install(ex)
    hf = ex.heap_fact
    def fact(st, lv, ctype, v):
        hf(st, lv, ctype, v)
        if lv.key() in AUTHP: st.assume(z3.Implies(ex.heap_arr(st, ('Z_IdAuthentication', 'which'), 'int')[lv.term] == AUTHP[lv.key()], v > 0))
    ex.heap_fact = fact
    ex.guards = {'userBySession': 'mutex'}
    def nm(m): return True
    def acq(ex, s, m, n):
        ex.require(s, z3.Not(s.store.get(HELD, z3.BoolVal(False))), 'lock is not already held', n, 'lock')
        s.store[HELD] = z3.BoolVal(True); s.writes = s.writes | {HELD}
    def rel(ex, s, m):
        s.store[HELD] = z3.BoolVal(False); s.writes = s.writes | {HELD}
    def guard(ex, s, lv, g, n): ex.require(s, s.store.get(HELD, z3.BoolVal(False)), 'users of sessions are accessed only under their lock', n, 'lock')
    def lk(ex, s, o, a, n): acq(ex, s, o, n); return [(s, None)]
    def ul(ex, s, o, a, n): rel(ex, s, o); return [(s, None)]
    ex.externs.update({'#lock_acquire': acq, '#lock_release': rel, '#guard': guard})
    ex.methods[('mutex', 'lock')], ex.methods[('mutex', 'unlock')] = lk, ul
    def mapkey(ex, s, v, m, n):
        if isinstance(v, (Loc, HLoc)): return ex.rd(s, v.sub('m_id'), n, 'unsigned long')
        if isinstance(v, StructVal): return v.fields[('m_id',)]
    ex.externs['#mapkey'] = mapkey
    ex.externs['database_name_normalize'] = lambda ex, s, this, a, n: [(s, LOW(ex.sval(s, a[0], n)))]
    ex.methods[('odr', 'ctor')] = lambda ex, s, ty, vs, n: [(s, StructVal('metaproxy_1::odr', {('m_odr',): ex.new_object(s, 'void')}))]
    ex.methods[('odr', 'operator odr *')] = lambda ex, s, o, a, n: [(s, ex.rd(s, o.sub('m_odr'), n))]
    def created(kind):
        def f(ex, s, o, a, n):
            p = ex.new_object(s, 'Z_APDU')
            txt = ex.sval(s, a[2], n) if len(a) > 2 and not isinstance(a[2], Null) else S('')
            s.assume(NEWFOR(p.term) == a[0].term, DERR(p.term) == a[1], DADD(p.term) == txt)
            ex.wr(s, HLoc('Z_APDU', p.term, ('which',)), z3.IntVal(KINDS[kind]), n, 'int')
            if kind == 'initResponse':
                r, k = ex.new_object(s, 'Z_InitResponse'), ex.new_object(s, 'int')
                ex.wr(s, HLoc('Z_APDU', p.term, ('u', kind)), r, n, 'Z_InitResponse *')
                ex.wr(s, HLoc('Z_InitResponse', r.term, ('result',)), k, n, 'int *')
            return [(s, p)]
        return f
    for k in ('initResponse', 'searchResponse', 'scanResponse'): ex.methods[('odr', 'create_' + k)] = created(k)
    def remove(ex, s, this, a, n):
        q = ex.rd(s, a[1], n)
        ex.wr(s, a[1], ListVal(z3.Concat(q.seq, s.store[VHO]), q.et), n)
        ex.wr(s, VHO, z3.Empty(SEQS), n)
        return [(s, z3.Int(fresh_name('removed')))]
    def setv(ex, s, this, a, n):
        if len(a) != 3: raise Unsupported('other form of set_vhost_otherinfo', n, ex)
        ex.wr(s, VHO, z3.Concat(s.store[VHO], ex.rd(s, a[2], n).seq), n)
        return [(s, None)]
    ex.externs['remove_vhost_otherinfo'], ex.externs['set_vhost_otherinfo'] = remove, setv


STEPS = [step('process_init', 'initRequest'), step('process_search', 'searchRequest'), step('process_scan', 'scanRequest'), step('check_targets', 'initRequest')]
CONTRACTS = [ListLemma(), AuthLemma(), CommaLemma(), GetUser(), Contains(), SplitDb(), RejectInit(), Init(), Search(), Scan(), Targets(), Process()] + STEPS
UNITS = [('src/filter_auth_simple.cpp', CONTRACTS, install)]

"""vcx: a contract based verification-condition generator for the C++ in /repo.

The input is clang's AST of the real translation unit (astload.TU), re-read on
every run.  Functions are executed symbolically one at a time, every path;
loops are cut by invariants, calls to functions that have a contract are
replaced by that contract, everything else with a body is inlined, and calls to
anything else need an entry in the table of assumed external contracts.
Every check (contract pre/postcondition, invariant, bounds, arithmetic range,
null dereference, initialised read, termination measure) is one named
obligation, discharged by an SMT solver for all inputs."""
import os, sys, re, time, hashlib, itertools
import z3
from . import astload

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    def __init__(self, msg, node=None, ex=None):
        self.node = node
        where = ''
        if node is not None and ex is not None:
            where = ' at %s' % ex.where(node)
        super().__init__(msg + where)


# ---------------------------------------------------------------- values
class Undef:
    def __repr__(self): return 'undef'


UNDEF = Undef()


class Null:
    def __repr__(self): return 'null'


NULL = Null()


class Opaque:
    """A value the contracts say nothing about (streams, format results)."""
    def __init__(self, tag='', data=None):
        self.tag, self.data = tag, data
    def __repr__(self): return 'opaque(%s)' % self.tag


class Buf:
    """NUL terminated constant character array of symbolic length n:
    reads 0..n are allowed, the character at n is 0 and none before is."""
    def __init__(self, name, rd, n):
        self.name, self.rd, self.n = name, rd, n
    def __repr__(self): return 'buf(%s)' % self.name


def fn_buf(name, n):
    f = z3.Function(name, z3.IntSort(), z3.IntSort())
    return Buf(name, lambda i: f(i), n)


def str_buf(s):
    """characters of an SMT string; chars are 0..255 in the string, converted
    to signed char on read as the C++ code sees them"""
    def rd(i):
        return z3.If(z3.And(i >= 0, i < z3.Length(s)), tochar(z3.StrToCode(z3.SubString(s, i, 1))), 0)
    b = Buf('str', rd, z3.Length(s))
    b.term = s
    return b


def tochar(c):
    return z3.If(c > 127, c - 256, c)


def tocode(c):
    return z3.If(c < 0, c + 256, c)


class BufPtr:
    def __init__(self, buf, off, null=None):
        self.buf, self.off = buf, off
        self.null = null if null is not None else z3.BoolVal(False)
    def __repr__(self): return '%r+%s' % (self.buf, self.off)


class SymPtr:
    """pointer to an object of the symbolic heap; 0 is null"""
    def __init__(self, term, ctype):
        self.term, self.ctype = term, ctype
    def __repr__(self): return 'ptr<%s>(%s)' % (self.ctype, self.term)


class LocPtr:
    def __init__(self, lv, idx=0):
        self.lv, self.idx = lv, idx
    def __repr__(self): return '&%r' % (self.lv,)


class FuncRef:
    def __init__(self, decl): self.decl = decl


class StructVal:
    """rvalue snapshot of a class object: relative path -> value"""
    def __init__(self, ctype, fields): self.ctype, self.fields = ctype, fields
    def __repr__(self): return 'struct %s %r' % (self.ctype, self.fields)


class ListVal:
    """std::list / std::vector contents: SMT sequence of elements"""
    def __init__(self, seq, et): self.seq, self.et = seq, et
    def __repr__(self): return 'list(%s)' % self.seq


class IterVal:
    """iterator = (where the container lives, index)"""
    def __init__(self, lv, idx): self.lv, self.idx = lv, idx
    def __repr__(self): return 'iter(%s,%s)' % (self.lv, self.idx)


class MapVal:
    def __init__(self, dom, val, kt, vt): self.dom, self.val, self.kt, self.vt = dom, val, kt, vt


def keyat(dom): return z3.Function('key_at', dom.sort(), z3.IntSort(), dom.sort().domain())
def nkeys(dom): return z3.Function('n_keys', dom.sort(), z3.IntSort())


class MapIter:
    def __init__(self, lv, key, end, kind='find', dom=None, idx=None):
        self.lv, self.key, self.end, self.kind = lv, key, end, kind
        self.dom, self.idx = dom, idx       # set for an iterator that walks the map in key order
    @staticmethod
    def nth(lv, dom, idx):
        return MapIter(lv, keyat(dom)(dom, idx), idx == nkeys(dom)(dom), 'walk', dom, idx)


class MapPair:
    def __init__(self, first, second): self.first, self.second = first, second


class ArrVal:
    """C array with symbolic contents"""
    def __init__(self, arr, et, n): self.arr, self.et, self.n = arr, et, n


# ---------------------------------------------------------------- lvalues
class Loc(tuple):
    """root + field path, a key of State.store"""
    def sub(self, f): return Loc(self + (f,))
    def __repr__(self): return '.'.join(str(x) for x in self)


class HLoc:
    """field path of a heap object (or of *pointer for scalars: path '')"""
    def __init__(self, rec, term, path): self.rec, self.term, self.path = rec, term, path
    def sub(self, f): return HLoc(self.rec, self.term, self.path + (f,))
    def key(self): return (self.rec, '.'.join(self.path))
    def __eq__(self, o): return isinstance(o, HLoc) and self.key() == o.key() and self.term.eq(o.term)
    def __hash__(self): return hash((self.key(), self.term.get_id()))
    def __repr__(self): return 'heap %s[%s].%s' % (self.rec, self.term, '.'.join(self.path))


class BLoc:
    def __init__(self, buf, off): self.buf, self.off = buf, off


class StrElem:
    """reference to one character of a std::string at lv"""
    def __init__(self, lv, idx): self.lv, self.idx = lv, idx


class ListElem:
    def __init__(self, lv, idx): self.lv, self.idx = lv, idx


class ArrElem:
    def __init__(self, lv, idx): self.lv, self.idx = lv, idx


class MapElem:
    def __init__(self, lv, key): self.lv, self.key = lv, key


LVALS = (Loc, HLoc, BLoc, StrElem, ListElem, ArrElem, MapElem)


def is_lv(v): return isinstance(v, LVALS)


# ---------------------------------------------------------------- types
INTR = {'int': (-2**31, 2**31 - 1), 'unsigned int': (0, 2**32 - 1), 'unsigned': (0, 2**32 - 1),
        'long': (-2**63, 2**63 - 1), 'unsigned long': (0, 2**64 - 1),
        'long long': (-2**63, 2**63 - 1), 'unsigned long long': (0, 2**64 - 1),
        'char': (-128, 127), 'signed char': (-128, 127), 'unsigned char': (0, 255),
        'short': (-32768, 32767), 'unsigned short': (0, 65535)}
ALIAS = {'size_t': 'unsigned long', 'std::size_t': 'unsigned long', 'time_t': 'long',
         'Odr_int': 'long long', 'Z_PresentStatus': 'long long', 'Z_CloseReason': 'long long', 'nmem_int_t': 'long long', 'xmlChar': 'unsigned char',
         'ptrdiff_t': 'long', 'size_type': 'unsigned long', 'difference_type': 'long',
         'std::basic_string<char>::size_type': 'unsigned long',
         'std::string::size_type': 'unsigned long', 'Odr_bool': 'int', 'bool_t': 'int',
         'uint32_t': 'unsigned int', 'int32_t': 'int', 'uint64_t': 'unsigned long',
         'int64_t': 'long', 'ssize_t': 'long', 'std::size_type': 'unsigned long', 'z_int':'long long'}


def qt(node):
    t = node['type'] if 'type' in node else node
    return t.get('desugaredQualType', t['qualType'])


def strip(t):
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for p in ('const ', 'volatile ', 'struct ', 'class ', 'enum ', 'union '):
            if t.startswith(p):
                t = t[len(p):]; ch = True
        for s in (' const', '&', '&&', ' volatile'):
            if t.endswith(s):
                t = t[:-len(s)].strip(); ch = True
        if t.endswith('*const'):
            t = t[:-5]; ch = True
    return t


HALIAS = {'Z_ReferenceId': 'odr_oct', 'Odr_oct': 'odr_oct', 'Z_DatabaseName': 'char'}


def hrec(t):
    """record name of a heap object of type t"""
    t = strip(t)
    return HALIAS.get(t, ALIAS.get(t, t))


def int_range(t):
    t = strip(t)
    t = ALIAS.get(t, t)
    if t.split('::')[-1] in ('size_type',):
        t = 'unsigned long'
    return INTR.get(t)


def is_ptr(t):
    t = strip(t)
    return t.endswith('*') or (t.endswith('xmlNodePtr') or t.endswith('xmlDocPtr') or t.endswith('xmlAttrPtr'))


def pointee(t):
    t = strip(t)
    if t.endswith('*'):
        return t[:-1].strip()
    m = re.match(r'^(xml\w+)Ptr$', t)
    if m:
        return '_' + m.group(1)
    return t


def targs(t):
    """top level template arguments"""
    i = t.find('<')
    if i < 0:
        return []
    depth, cur, out = 0, '', []
    for c in t[i + 1:]:
        if c == '<': depth += 1
        if c == '>':
            if depth == 0:
                break
            depth -= 1
        if c == ',' and depth == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += c
    out.append(cur.strip())
    return out


def kind(t):
    """classify a C++ type"""
    t = strip(t)
    if t in ('bool', '_Bool'):
        return 'bool'
    if t == 'void':
        return 'void'
    if re.match(r'.*\[\d*\]$', t):
        return 'array'
    if re.match(r'^(std::|std::__cxx11::)?(basic_string<char|string$|string\b(?!::))', t) and not t.endswith('*') and 'iterator' not in t:
        return 'string'
    if t.endswith('*') or re.match(r'^xml\w+Ptr$', t):
        return 'ptr'
    if int_range(t):
        return 'int'
    if re.match(r'^(boost|std)::(shared_ptr|scoped_ptr|unique_ptr)<', t):
        return 'smart'
    if re.match(r'^(std::)?(_List_const_iterator|_List_iterator|__gnu_cxx::__normal_iterator|__normal_iterator)<', t) \
       or re.match(r'^(std::|std::__cxx11::)?(list|vector)<.*>::(const_)?iterator$', t):
        return 'iter'
    if re.match(r'^(std::)?(_Rb_tree_const_iterator|_Rb_tree_iterator)<', t) \
       or re.match(r'^(std::)?map<.*>::(const_)?iterator$', t) or t.endswith('CallbackMapIt'):
        return 'mapiter'
    if re.match(r'^(std::|std::__cxx11::)?(list|vector)<', t):
        return 'list'
    if re.match(r'^(std::)?(map|multimap)<', t):
        return 'map'
    if re.match(r'^(std::)?set<', t):
        return 'map'
    if re.match(r'.*\[\d*\]$', t):
        return 'array'
    if t.startswith('std::pair<'):
        return 'pair'
    return 'record'


def shortrec(t):
    t = strip(t)
    if t.startswith('_'):
        t = t[1:]
    return t.split('::')[-1]


# ---------------------------------------------------------------- state
class State:
    __slots__ = ('store', 'pc', 'heap', 'flow', 'val', 'alloc', 'writes', 'trace', 'log', 'frames')

    def __init__(self):
        self.store, self.pc, self.heap = {}, (), {}
        self.flow = None      # None | ('ret', v) | ('break',) | ('cont',) | ('throw', type) | ('dead',)
        self.val = None
        self.alloc = z3.Int('alloc0')
        self.writes = frozenset()
        self.trace = ()
        self.log = ()
        self.frames = ()

    def copy(self):
        s = State.__new__(State)
        s.store, s.pc, s.heap = dict(self.store), self.pc, dict(self.heap)
        s.flow, s.val, s.alloc = self.flow, self.val, self.alloc
        s.writes, s.trace = self.writes, self.trace
        s.log = self.log
        s.frames = self.frames
        return s

    def assume(self, *fs):
        s = self
        add = []
        for f in fs:
            if isinstance(f, bool):
                f = z3.BoolVal(f)
            if z3.is_true(f):
                continue
            add.append(f)
        if add:
            self.pc = self.pc + tuple(add)
        return self


class Obligation:
    __slots__ = ('name', 'pc', 'goal', 'where', 'fn', 'status', 'time', 'backend', 'detail', 'kind')

    def __init__(self, name, pc, goal, where, fn, kind='post'):
        self.name, self.pc, self.goal, self.where, self.fn = name, pc, goal, where, fn
        self.status = self.time = self.backend = None
        self.detail = ''
        self.kind = kind


_fresh = itertools.count()


def fresh_name(base):
    return '%s!%d' % (base, next(_fresh))


def simp(e):
    return z3.simplify(e)


def as_bool(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b


class Contract:
    """Contract of one real function.  Subclasses define
      inputs(ex, st)            -> (this LV/value or None, [arg values]) when verifying the body
      requires(c)               -> [(label, formula)]
      ensures(c)                -> [(label, formula)]   normal return
      throws(c)                 -> None (never throws) | [(label, formula)] on exceptional exit
      modifies(c)               -> list of lvalues havoced at a call site
      result(c)                 -> fresh result at a call site
    c.pre/c.post states, c.args, c.this, c.ret, c.ex."""
    qname = None
    nparams = None
    types = None
    src = None
    inline = False
    assumed = False
    standalone = False      # verified, but its body is used at call sites
    strong = None           # regex: invariant candidates of outermost loops worth a larger budget
    firm = None             # regex: invariant candidates worth some more attempts in every loop
    loops = ()
    may_throw = False

    def pre_facts(self, c): return []
    def requires(self, c): return []
    def ensures(self, c): return []
    def throws(self, c): return None
    def modifies(self, c): return []
    def result(self, c): return None
    def effect(self, c): pass
    def invariants(self, L): return []
    def measures(self, L): return []


class Ctx:
    def __init__(self, ex, pre, post, this, args, ret=None, node=None):
        self.ex, self.pre, self.post = ex, pre, post
        self.this, self.args, self.ret, self.node = this, args, ret, node

    def old(self, lv): return self.ex.rd_peek(self.pre, lv)
    def new(self, lv): return self.ex.rd_peek(self.post, lv)


class LoopView:
    """what an invariant template may talk about"""
    def __init__(self, ex, con, entry, cur, vars, fnargs, this, ordinal, fn, pre):
        self.ex, self.con, self.entry, self.cur, self.vars = ex, con, entry, cur, vars
        self.args, self.this, self.ordinal, self.fn, self.pre = fnargs, this, ordinal, fn, pre

    def ints(self):
        return [(n, v) for n, lv, v in self._vals() if z3.is_expr(v) and z3.is_int(v)]

    def bools(self):
        return [(n, v) for n, lv, v in self._vals() if z3.is_expr(v) and z3.is_bool(v)]

    def strs(self):
        return [(n, v) for n, lv, v in self._vals() if z3.is_expr(v) and z3.is_string(v)]

    def bufptrs(self):
        return [(n, v) for n, lv, v in self._vals() if isinstance(v, BufPtr)]

    def symptrs(self, ctype=None):
        return [(n, v) for n, lv, v in self._vals() if isinstance(v, SymPtr)
                and (ctype is None or shortrec(v.ctype) == ctype)]

    def iters(self):
        return [(n, v) for n, lv, v in self._vals() if isinstance(v, IterVal)]

    def lists(self):
        return [(n, v) for n, lv, v in self._vals() if isinstance(v, ListVal)]

    def all_vals(self):
        return [(self.ex.lvname(lv), lv, v) for lv, v in list(self.cur.store.items())]

    def _vals(self):
        out = []
        for n, lv in self.vars:
            v = self.cur.store.get(lv)
            if v is not None:
                out.append((n, lv, v))
        return out

    def modified(self):
        return self._vals()

    def peek(self, lv): return self.ex.rd_peek(self.cur, lv)
    def peek0(self, lv): return self.ex.rd_peek(self.entry, lv)


CONSTS = {}


def consts_of(e):
    """names of the uninterpreted constants and functions of a term"""
    k = e.get_id()
    got = CONSTS.get(k)
    if got is not None and got[0].eq(e): return got[1]
    out, seen, todo = set(), set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
            todo += x.children()
    CONSTS[k] = (e, out)
    return out


class Exec:
    def __init__(self, tu, prop, workdir, quick_ms=600, feas_ms=100):
        self.tu, self.prop, self.workdir = tu, prop, workdir
        self.contracts = []       # for call sites
        self.externs = {}         # name -> fn(ex, st, this, args, node) -> [(st, val)]
        self.methods = {}         # (kind or class, name) -> fn
        self.obls = []
        self.quiet = 0
        self.cur_fn = '?'
        self.cur_contract = None
        self.used_extern = {}
        self.inlined = {}
        self.dropped = set()
        self.quick_ms, self.feas_ms = quick_ms, feas_ms
        self.axioms = []          # background facts used by every query (definitions / lemmas)
        self.havoc_hooks = {}
        self.loop_count = 0
        self.files = {}
        self.solver_s = 0.0
        self.nquick = 0
        self.depth = 0
        self.qcache = {}
        self.lib_notes = set()
        self.loopinfo = []
        self.merge = True
        self.throw_default = None
        self.guards = {}          # field -> mutex (lock discipline)
        self.field_inv = None
        self.unroll = {}
        self.modcache, self.invcache, self.newcache = {}, {}, {}
        self.in_outer = self.skip_houdini = 0
        self.hq = {}
        from . import lib
        lib.install(self)

    # ---------------- diagnostics
    def where(self, node):
        try:
            r = node.get('range', {}).get('begin', {})
            r = r.get('expansionLoc', r)
            off = r.get('offset')
            f = self.cur_file()
            if f not in self.files:
                self.files[f] = open(f, 'rb').read()
            line = self.files[f].count(b'\n', 0, off) + 1
            return '%s:%d' % (f.replace(astload.REPO + '/', ''), line)
        except Exception:
            return '?'

    def cur_file(self):
        return getattr(self, '_file', self.tu.path)

    # ---------------- solver helpers
    def quick(self, pc, goal, ms=None, seed=0):
        """'yes' if pc => goal is valid, 'no' if refuted, 'unknown'"""
        goal = as_bool(goal)
        if z3.is_true(goal):
            return 'yes'
        key = (tuple(p.get_id() for p in pc), goal.get_id(), ms, seed)
        if key in self.qcache:
            return self.qcache[key][0]
        s = z3.Solver()
        # deterministic budget: rlimit, not wall clock
        s.set('rlimit', int((ms or self.quick_ms) * self.rl_per_ms))
        s.set('timeout', max(10000, int(12 * (ms or self.quick_ms))))
        if not self.mbqi: s.set('mbqi', False)
        if seed: s.set('random_seed', seed)
        for a in self.axioms:
            s.add(a)
        for p in pc:
            s.add(p)
        s.add(z3.Not(goal))
        t = time.time()
        r = s.check()
        self.solver_s += time.time() - t
        self.nquick += 1
        r = 'yes' if r == z3.unsat else 'no' if r == z3.sat else 'unknown'
        self.qcache[key] = (r, pc, goal)
        return r

    rl_per_ms = 2000
    mbqi = True         # model-based quantifier instantiation (off where every axiom has a trigger and the model search only burns time)

    @staticmethod
    def unmark(f):
        """a goal without the unfolding markers (true by definition) its assumption form carries"""
        if z3.is_expr(f) and z3.is_and(f):
            k = [x for x in f.children() if not z3.is_app(x) or not x.decl().name().startswith('unfold')]
            return k[0] if len(k) == 1 else z3.And(*k)
        return f

    def quick_hard(self, items, short=False):
        """like quick_many on a larger budget: run times vary widely with the seed, so several are tried"""
        res = ['unknown'] * len(items)
        for ms, seeds in ((1 * self.quick_ms, (1, 2, 3)),) if short else ((3 * self.quick_ms, (1, 2, 3, 4)), (6 * self.quick_ms, (5, 6, 7, 8)), (12 * self.quick_ms, (0, 9))):
            todo = [i for i, r in enumerate(res) if r == 'unknown']
            if not todo: break
            rs = self.quick_many([items[i] + (k,) for k in seeds for i in todo], ms, 1)
            for j, i in enumerate(todo):
                got = [r for r in rs[j::len(todo)] if r != 'unknown']
                if got: res[i] = got[0]
        return res

    def quick_many(self, items, ms=None, chunk=3):
        """[(pc, goal)] -> ['yes'/'no'/'unknown'], independent queries spread over the cores"""
        items = [(it[0], as_bool(it[1]), ms) + tuple(it[2:]) for it in items]
        n = len(items)
        jobs = min(self.jobs, (n + chunk - 1) // chunk)
        if jobs <= 1:
            return [self.quick(*it) for it in items]
        import multiprocessing as mp
        from multiprocessing.connection import wait
        ctx = mp.get_context('fork')
        t = time.time()
        res = [None] * n
        live = {}
        def work(j, c):
            for i in range(j, n, jobs):
                try: r = self.quick(*items[i])
                except Exception: r = 'unknown'
                c.send((i, r))
            c.close()
            os._exit(0)
        for j in range(jobs):
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=work, args=(j, b), daemon=True)
            p.start(); b.close()
            live[a] = p
        ps = list(live.values())
        while live:
            ready = wait(list(live), timeout=100)
            if not ready:                       # every query is limited: a worker silent for so long is stuck
                for p in ps: p.kill()
                break
            for c in ready:
                try:
                    i, r = c.recv()
                    res[i] = r
                except EOFError:
                    del live[c]
        for p in ps: p.join()
        self.solver_s += time.time() - t
        self.nquick += n
        return [r or 'unknown' for r in res]

    jobs = min(8, os.cpu_count() or 1)

    def feasible(self, st, ms=None):
        ms = ms or self.feas_ms
        if st.pc:
            l = st.pc[-1]
            if z3.is_false(l):
                return False
        # pruning only: leaving out the quantified facts can only keep more paths
        pc = [p for p in st.pc if not self.has_quant(p)]
        key = (tuple(p.get_id() for p in pc),)
        if key in self.qcache: return self.qcache[key][0]
        s = z3.Solver()
        s.set('rlimit', int(ms * self.rl_per_ms))
        s.set('timeout', 10000)
        for a in self.axioms:
            if not self.has_quant(a): s.add(a)
        for p in pc: s.add(p)
        t = time.time()
        r = s.check() != z3.unsat
        self.solver_s += time.time() - t
        self.nquick += 1
        self.qcache[key] = (r, pc)
        return r

    def has_quant(self, e):
        k = e.get_id()
        if k in self.hq: return self.hq[k][0]
        st, r, seen = [e], False, set()
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): r = True; break
            st.extend(x.children())
        self.hq[k] = (r, e)
        return r

    def require(self, st, goal, name, node=None, kind='safety'):
        goal = as_bool(goal)
        goal = z3.simplify(goal) if z3.is_true(z3.simplify(goal)) else goal
        if not self.quiet:
            o = Obligation(name, st.pc, goal, self.where(node) if node else '', self.cur_fn, kind)
            self.obls.append(o)
        if not z3.is_true(goal):
            st.assume(goal)
        return st

    # ---------------- symbolic values by type
    def fresh(self, st, ctype, name):
        t = strip(ctype)
        k = kind(t)
        if k == 'bool':
            return z3.Bool(name)
        if k == 'int':
            v = z3.Int(name)
            lo, hi = int_range(t)
            st.assume(v >= lo, v <= hi)
            return v
        if k == 'string':
            return z3.String(name)
        if k in ('ptr', 'smart'):
            p = pointee(t) if k == 'ptr' else targs(t)[0]
            v = z3.Int(name)
            st.assume(v >= 0)
            return SymPtr(v, p)
        if k == 'list':
            et = targs(t)[0]
            return ListVal(z3.Const(name, z3.SeqSort(self.sort(et))), et)
        if k == 'map':
            a = targs(t)
            if t.startswith('std::set'):
                return MapVal(z3.Const(name + '.dom', z3.ArraySort(self.sort(a[0]), z3.BoolSort())),
                              None, a[0], None)
            return MapVal(z3.Const(name + '.dom', z3.ArraySort(self.sort(a[0]), z3.BoolSort())),
                          z3.Const(name + '.val', z3.ArraySort(self.sort(a[0]), self.sort(a[1]))), a[0], a[1])
        if self.is_enum(t):
            v = z3.Int(name)
            st.assume(v >= -2**31, v < 2**31)
            return v
        raise Unsupported('cannot make a symbolic value of type %s' % t)

    def is_enum(self, t):
        return getattr(self, 'enum_types', None) is not None and strip(t).split('::')[-1] in self.enum_types \
            or strip(t).split('::')[-1] in ('xmlElementType', 'xmlAttributeType') or strip(t).startswith('enum ')

    def sort(self, ctype):
        k = kind(ctype)
        if k == 'bool': return z3.BoolSort()
        if k == 'int': return z3.IntSort()
        if k == 'string': return z3.StringSort()
        if k == 'list': return z3.SeqSort(self.sort(targs(strip(ctype))[0]))
        il = self.inline_records.get(shortrec(ctype)) if k == 'record' else None
        if il: return self.sort(il[1])
        return z3.IntSort()     # pointers, smart pointers, enums, object identities

    def of_sort(self, ctype, term):
        """wrap an SMT term as a value of C++ type ctype"""
        k = kind(ctype)
        if k in ('bool', 'int', 'string'):
            return term
        if k == 'ptr':
            return SymPtr(term, pointee(ctype))
        if k == 'smart':
            return SymPtr(term, targs(strip(ctype))[0])
        if k == 'list':
            return ListVal(term, targs(strip(ctype))[0])
        il = self.inline_records.get(shortrec(ctype)) if k == 'record' else None
        if il: return StructVal(strip(ctype), {(il[0],): self.of_sort(il[1], term)})
        if k == 'record' and not self.is_enum(ctype):
            return SymPtr(term, strip(ctype))   # object identity of an element held by value
        return term

    def to_term(self, st, v, ctype=None):
        """value -> SMT term"""
        if isinstance(v, SymPtr): return v.term
        if isinstance(v, ListVal): return v.seq
        if isinstance(v, Null): return z3.IntVal(0)
        if isinstance(v, bool): return z3.BoolVal(v)
        if isinstance(v, int): return z3.IntVal(v)
        if z3.is_expr(v): return v
        if isinstance(v, BufPtr) and hasattr(v.buf, 'addr'):
            return z3.If(v.null, 0, v.buf.addr + v.off)
        if isinstance(v, FuncRef):
            return z3.Int('fn:' + str(v.decl.get('name')))
        if isinstance(v, LocPtr) and isinstance(v.lv, HLoc) and not v.lv.path:
            return v.lv.term
        raise Unsupported('no SMT term for %r' % (v,))

    # ---------------- store access
    def rd_peek(self, st, lv):
        """read without obligations (for specs)"""
        s2 = st.copy()
        q = self.quiet; self.quiet += 1
        try:
            return self.rd(s2, lv, None, peek=True)
        finally:
            self.quiet = q

    def rd(self, st, v, node, ctype=None, peek=False):
        """lvalue -> value; anything else unchanged"""
        if not is_lv(v):
            return v
        if isinstance(v, Loc):
            if v in st.store:
                x = st.store[v]
                if isinstance(x, Undef) and not peek:
                    self.require(st, z3.BoolVal(False), 'read of an uninitialised variable %s' % self.lvname(v), node)
                return x
            # struct gathered from fields
            sub = {k[len(v):]: x for k, x in st.store.items() if len(k) > len(v) and k[:len(v)] == v}
            if sub:
                return StructVal(ctype, sub)
            if ctype is None:
                ctype = self.loc_types.get(v)
            if ctype is None:
                raise Unsupported('unknown location %r' % (v,), node, self)
            return self.lazy(st, v, ctype)
        if isinstance(v, HLoc):
            return self.heap_read(st, v, ctype, node, peek)
        if isinstance(v, BLoc):
            if not peek:
                self.require(st, z3.And(v.off >= 0, v.off <= v.buf.n), 'read inside the NUL-terminated input', node)
            return v.buf.rd(v.off)
        if isinstance(v, StrElem):
            s = self.rd(st, v.lv, node)
            if not peek:
                self.require(st, z3.And(v.idx >= 0, v.idx <= z3.Length(s)), 'string index in range', node)
            if self.abstract_chars:
                c = z3.Function('chr', z3.StringSort(), z3.IntSort(), z3.IntSort())(s, v.idx)
                st.assume(c >= -128, c <= 127, z3.Implies(v.idx == z3.Length(s), c == 0))
                return c
            return str_buf(s).rd(v.idx)
        if isinstance(v, ListElem):
            l = self.rd(st, v.lv, node)
            if not peek:
                self.require(st, z3.And(v.idx >= 0, v.idx < z3.Length(l.seq)), 'iterator dereference in range', node)
            if self.elem_inv:
                f = self.elem_inv(l.et, l.seq[v.idx])
                if f is not None: st.assume(z3.Implies(z3.And(v.idx >= 0, v.idx < z3.Length(l.seq)), f))
            return self.of_sort(l.et, l.seq[v.idx])
        if isinstance(v, ArrElem):
            a = self.rd(st, v.lv, node)
            if isinstance(a, ArrVal):
                if not peek:
                    self.require(st, z3.And(v.idx >= 0, v.idx < a.n), 'array index in range', node)
                return self.of_sort(a.et, a.arr[v.idx])
            raise Unsupported('array read of %r' % (a,), node, self)
        if isinstance(v, MapElem):
            m = self.rd(st, v.lv, node)
            if self.elem_inv:
                f = self.elem_inv(m.vt, m.val[v.key])
                if f is not None: st.assume(z3.Implies(m.dom[v.key], f))
            return self.of_sort(m.vt, m.val[v.key])
        raise Unsupported('read %r' % (v,), node, self)

    inline_records = {}     # record with a single data member -> (member, type): stored by value in containers
    elem_inv = None     # (element type, term) -> invariant of every container element: proved on insertion, used on reading
    loc_types = {}
    char_append = False        # appending a character described by the characters, not by concatenation
    abstract_chars = False     # characters of strings as an uninterpreted function of string and index

    def lvname(self, lv):
        return str(lv[0]).split('#')[0] + ''.join('.' + str(x) for x in lv[1:]) if isinstance(lv, Loc) else str(lv)

    def lazy(self, st, lv, ctype):
        k = kind(ctype)
        if k == 'record' and not self.is_enum(ctype):
            return lv     # an object: fields are materialised lazily
        if k == 'array':
            return lv
        hook = self.lazy_hook(st, lv, ctype) if hasattr(self, 'lazy_hook') else None
        v = hook if hook is not None else self.fresh(st, ctype, self.lvname(lv) + '@0')
        st.store[lv] = v
        return v

    def heap_sort_key(self, lv, ctype):
        return lv.key()

    def heap_read(self, st, lv, ctype, node, peek=False):
        k = kind(ctype) if ctype else None
        if ctype is None:
            ctype = self.heap_types.get(lv.key())
            if ctype is None:
                raise Unsupported('heap field of unknown type %r' % (lv,), node, self)
            k = kind(ctype)
        if k == 'record' and not self.is_enum(ctype):
            return lv
        self.heap_types[lv.key()] = ctype
        if k == 'map':
            # container held inside a heap object: only supported through a Loc
            raise Unsupported('container inside symbolic heap object %r' % lv, node, self)
        a = self.heap_arr(st, lv.key(), ctype)
        t = a[lv.term]
        if k == 'int':
            lo, hi = int_range(ctype)
            st.assume(t >= lo, t <= hi)
        elif k in ('ptr', 'smart'):
            st.assume(t >= 0)
        elif self.is_enum(ctype):
            st.assume(t >= 0, t < 2**31)
        if self.heap_fact:
            self.heap_fact(st, lv, ctype, t)
        return self.of_sort(ctype, t)

    heap_fact = None
    heap_types = {}

    def heap_arr(self, st, key, ctype=None):
        if key not in st.heap:
            st.heap[key] = z3.Const('H.%s.%s' % (shortrec(key[0]), key[1]),
                                    z3.ArraySort(z3.IntSort(), self.sort(ctype or self.heap_types[key])))
        return st.heap[key]

    def wr(self, st, lv, v, node=None, ctype=None):
        if isinstance(lv, Loc):
            # overwrite object
            for k in [k for k in st.store if len(k) > len(lv) and k[:len(lv)] == lv]:
                del st.store[k]
            if isinstance(v, StructVal):
                st.store.pop(lv, None)
                for p, x in v.fields.items():
                    st.store[Loc(lv + tuple(p))] = x
                    st.writes = st.writes | {Loc(lv + tuple(p))}
            else:
                st.store[lv] = v
            st.writes = st.writes | {lv}
            return
        if isinstance(lv, HLoc):
            if ctype is None:
                ctype = self.heap_types.get(lv.key())
            if isinstance(v, StructVal):
                for p, x in v.fields.items():
                    self.wr(st, HLoc(lv.rec, lv.term, lv.path + tuple(p)), x, node)
                return
            if ctype is None and isinstance(v, SymPtr):
                ctype = v.ctype + ' *'
            if ctype is None:
                raise Unsupported('heap write of unknown type %r' % lv, node, self)
            self.heap_types.setdefault(lv.key(), ctype)
            a = self.heap_arr(st, lv.key(), ctype)
            st.heap[lv.key()] = z3.Store(a, lv.term, self.to_term(st, v))
            st.writes = st.writes | {('heap',) + lv.key()}
            return
        if isinstance(lv, StrElem):
            s = self.rd(st, lv.lv, node)
            self.require(st, z3.And(lv.idx >= 0, lv.idx < z3.Length(s)), 'string index in range (write)', node)
            if self.abstract_chars:
                ch, k = z3.Function('chr', z3.StringSort(), z3.IntSort(), z3.IntSort()), z3.Int('k!w')
                ns = z3.Const(fresh_name('str'), z3.StringSort())
                st.assume(z3.Length(ns) == z3.Length(s), z3.ForAll([k], ch(ns, k) == z3.If(k == lv.idx, v, ch(s, k)), patterns=[ch(ns, k)]))
                self.wr(st, lv.lv, ns, node)
                return
            c = z3.StrFromCode(tocode(v))
            ns = z3.Concat(z3.SubString(s, 0, lv.idx), c, z3.SubString(s, lv.idx + 1, z3.Length(s) - lv.idx - 1))
            self.wr(st, lv.lv, ns, node)
            return
        if isinstance(lv, ArrElem):
            a = self.rd(st, lv.lv, node)
            self.require(st, z3.And(lv.idx >= 0, lv.idx < a.n), 'array index in range (write)', node)
            self.wr(st, lv.lv, ArrVal(z3.Store(a.arr, lv.idx, self.to_term(st, v)), a.et, a.n), node)
            return
        if isinstance(lv, MapElem):
            m = self.rd(st, lv.lv, node)
            self.wr(st, lv.lv, MapVal(z3.Store(m.dom, lv.key, True),
                                      z3.Store(m.val, lv.key, self.elem_in(st, v, m.vt, node)), m.kt, m.vt), node)
            return
        if isinstance(lv, ListElem):
            l = self.rd(st, lv.lv, node)
            self.require(st, z3.And(lv.idx >= 0, lv.idx < z3.Length(l.seq)), 'iterator write in range', node)
            ns = z3.Concat(z3.SubSeq(l.seq, 0, lv.idx), z3.Unit(self.to_term(st, v)),
                           z3.SubSeq(l.seq, lv.idx + 1, z3.Length(l.seq) - lv.idx - 1))
            self.wr(st, lv.lv, ListVal(ns, l.et), node)
            return
        raise Unsupported('write to %r' % (lv,), node, self)

    def new_object(self, st, ctype):
        """allocate a fresh heap identity"""
        p = st.alloc
        st.assume(p > 0)
        st.alloc = p + 1
        return SymPtr(p, ctype)

    # ---------------- havoc
    def havoc_value(self, st, v, name, ctype=None):
        n = fresh_name(name)
        if isinstance(v, (Undef, Opaque, FuncRef)):
            return v
        if z3.is_expr(v):
            if z3.is_bool(v): return z3.Bool(n)
            if z3.is_int(v):
                x = z3.Int(n)
                return x
            return z3.Const(n, v.sort())
        if isinstance(v, BufPtr):
            return BufPtr(v.buf, z3.Int(n), v.null if z3.is_false(v.null) else z3.Bool(n + '.null'))
        if isinstance(v, SymPtr):
            x = z3.Int(n)
            st.assume(x >= 0)
            return SymPtr(x, v.ctype)
        if isinstance(v, Null):
            return v
        if isinstance(v, ListVal):
            return ListVal(z3.Const(n, v.seq.sort()), v.et)
        if isinstance(v, IterVal):
            return IterVal(v.lv, z3.Int(n))
        if isinstance(v, MapVal):
            return MapVal(z3.Const(n + '.dom', v.dom.sort()),
                          None if v.val is None else z3.Const(n + '.val', v.val.sort()), v.kt, v.vt)
        if isinstance(v, MapIter) and v.idx is not None:
            return MapIter.nth(v.lv, v.dom, z3.Int(n))
        if isinstance(v, MapIter):
            return MapIter(v.lv, z3.Const(n + '.key', v.key.sort()), z3.Bool(n + '.end'), v.kind)
        if isinstance(v, ArrVal):
            return ArrVal(z3.Const(n, v.arr.sort()), v.et, v.n)
        if isinstance(v, LocPtr):
            raise Unsupported('pointer to a local changes inside a loop (%s)' % name)
        if isinstance(v, StructVal):
            return StructVal(v.ctype, {p: self.havoc_value(st, x, name) for p, x in v.fields.items()})
        if hasattr(v, 'havoc'):
            return v.havoc(st, n)
        raise Unsupported('havoc of %r' % (v,))

    def join_kind(self, vals):
        """representative for havoc when a location holds different kinds of value"""
        vs = [v for v in vals if v is not None]
        ptrs = [v for v in vs if isinstance(v, (BufPtr, SymPtr, Null))]
        if len(ptrs) == len(vs) and ptrs:
            b = [v for v in vs if isinstance(v, BufPtr)]
            s = [v for v in vs if isinstance(v, SymPtr)]
            if b and not s:
                if len({id(v.buf) for v in b}) > 1:
                    if len({str(v.buf.name) for v in b}) > 1:
                        raise Unsupported('pointer moves between buffers in a loop')
                nul = any(isinstance(v, Null) for v in vs) or any(not z3.is_false(v.null) for v in b)
                return BufPtr(b[0].buf, b[0].off, z3.Bool(fresh_name('n')) if nul else None)
            if s and not b:
                return s[0]
        u = [v for v in vs if not isinstance(v, Undef)]
        if len(u) != len(vs):
            return UNDEF
        return vs[0]

    # ---------------- verifying one function
    def verify(self, con):
        """generate the obligations of one function against its contract"""
        decls = self.tu.find(con.qname, con.nparams, con.types)
        if not decls:
            raise Unsupported('function %s not found in %s' % (con.qname, self.tu.src))
        d = decls[0]
        self.cur_fn = con.qname.split('metaproxy_1::')[-1] + (' [%s]' % con.label if getattr(con, 'label', None) else '') + ('' if not con.types else '(' + ','.join(con.types) + ')')
        self.cur_contract = con
        self._file = d.get('_file', self.tu.path)
        self.loop_count = 0
        st = State()
        this, args = con.inputs(self, st)
        c = Ctx(self, None, None, this, args)
        c.pre = st
        for lab, f in con.requires(c):
            st.assume(f)
        pre = st.copy()
        c.pre = pre
        if not self.feasible(st, 3000):
            raise Unsupported('precondition of %s is unsatisfiable (vacuous)' % con.qname)
        self.fn_pre, self.fn_args, self.fn_this = pre, args, this
        n0 = len(self.obls)
        outs = self.call_body(st, d, this, args, top=True)
        nret = nthrow = 0
        for s in outs:
            if s.flow and s.flow[0] == 'dead':
                continue
            c.post = s
            if s.flow and s.flow[0] == 'throw':
                c.thrown = s.flow[1]
                th = con.throws(c)
                if th is None:
                    if self.feasible(s):
                        self.require(s.copy(), z3.BoolVal(False), 'does not throw', None, 'post')
                    continue
                for lab, f in th:
                    self.require(s.copy(), f, lab, None, 'post')
                nthrow += 1
                continue
            c.ret = s.val
            nret += 1
            for lab, f in con.ensures(c):
                self.require(s.copy(), f, lab, None, 'post')
        # reachability (vacuity) guard: some exit must be feasible
        alive = any(self.feasible(s, 1000) for s in outs if not (s.flow and s.flow[0] == 'dead'))
        if not alive:
            raise Unsupported('no feasible exit of %s: contract is vacuous' % con.qname)
        # the axioms together with the path condition of the exits must not be contradictory (all returns, all throws)
        for grp in ([s for s in outs if not s.flow], [s for s in outs if s.flow and s.flow[0] == 'throw']):
            if grp and all(r == 'yes' for r in self.quick_many([(s.pc, z3.BoolVal(False)) for s in grp[:16]], 3 * self.quick_ms, 1)) and len(grp) <= 16:
                if grp[0].flow is None: raise Unsupported('no normal exit of %s is possible under the axioms: contract is vacuous' % con.qname)
        return len(self.obls) - n0

    def call_body(self, st, d, this, args, top=False, node=None):
        """inline a function body; returns states (flow None or throw, val set)"""
        if self.depth > 12:
            raise Unsupported('inlining too deep (%s)' % d.get('name'))
        ps = astload.params(d)
        st = st.copy()
        frame = fresh_name(d.get('name', 'f'))
        saved_this = getattr(self, 'this', None)
        saved_env = getattr(self, 'env', {})
        saved_file = self.cur_file()
        saved_fid = getattr(self, 'frame', '')
        self._file = d.get('_file', self.cur_file())
        self.this = this
        self.env = {}
        self.frame = frame
        self.depth += 1
        try:
            for i, p in enumerate(ps):
                if i >= len(args):
                    dv = [x for x in p.get('inner', ()) if 'kind' in x]
                    if not dv:
                        raise Unsupported('missing argument for %s' % d.get('name'))
                    rs = self.eval(dv[0], st)
                    if len(rs) != 1: raise Unsupported('default argument forks')
                    st, a = rs[0]
                else:
                    a = args[i]
                t = p['type']['qualType']
                lv = Loc((p.get('name', 'arg%d' % i) + '#' + frame,))
                if t.rstrip().endswith('&'):
                    if is_lv(a):
                        self.env[p['id']] = a
                        continue
                    # bind reference to temporary
                else:
                    a = self.rd(st, a, node, qt(p))
                    if isinstance(a, Loc) or isinstance(a, HLoc):
                        a = self.snapshot(st, a, qt(p))
                self.env[p['id']] = lv
                self.loc_types = dict(self.loc_types); self.loc_types[lv] = qt(p)
                self.wr(st, lv, a)
            # constructor initialisers
            states = [st]
            if d.get('kind') == 'CXXConstructorDecl':
                for ini in d.get('inner', ()):
                    if ini.get('kind') == 'CXXCtorInitializer':
                        states = self.ctor_init(states, ini, this, d)
            outs = []
            for s in states:
                if s.flow: outs.append(s); continue
                outs += self.exec(astload.body(d), s)
            res = []
            for s in outs:
                if s.flow is None:
                    s.val = None
                elif s.flow[0] == 'ret':
                    s.val = s.flow[1]
                    s.flow = None
                res.append(s)
            return res
        finally:
            self.depth -= 1
            self.this, self.env, self._file, self.frame = saved_this, saved_env, saved_file, saved_fid

    def ctor_init(self, states, ini, this, d):
        fld = ini.get('anyInit')
        inner = [x for x in ini.get('inner', ()) if 'kind' in x]
        if not inner:
            return states
        outs = []
        for s in states:
            if s.flow: outs.append(s); continue
            if not fld:
                outs.append(s); continue     # base class initialiser
            lv = this.sub(fld['name']) if is_lv(this) else this
            t = fld['type'].get('desugaredQualType', fld['type']['qualType'])
            for s2, v in self.eval(inner[0], s):
                if s2.flow: outs.append(s2); continue
                self.init_loc(s2, lv, v, t, inner[0])
                outs.append(s2)
        return outs

    def snapshot(self, st, lv, ctype):
        """copy of an object at lv as StructVal (lazy fields are shared by name,
        so they are materialised through the record's field list)"""
        v = self.rd(st, lv, None, ctype)
        if isinstance(v, SymPtr) and not isinstance(lv, (Loc, HLoc)):      # element held by value in a container
            lv = HLoc(strip(v.ctype), v.term, ())
        if isinstance(v, StructVal):
            fields = dict(v.fields)
        else:
            fields = {}
        rec = self.record(ctype)
        if rec is not None:
            for f, ft in self.fields(rec):
                if kind(ft) == 'record' and not self.is_enum(ft):
                    sv = self.snapshot(st, lv.sub(f), ft)
                    for p, x in sv.fields.items():
                        fields.setdefault((f,) + tuple(p), x)
                elif not any(p[0] == f for p in fields):
                    try:
                        fields[(f,)] = self.rd(st, lv.sub(f), None, ft)
                    except Unsupported:
                        pass
        return StructVal(ctype, fields)

    def record(self, ctype):
        t = strip(ctype)
        r = self.tu.records.get(t)
        if r is None:
            for q, x in self.tu.records.items():
                if q.endswith('::' + t) or q.split('::')[-1] == t.split('::')[-1]:
                    return x
        return r

    def fields(self, rec):
        out = []
        for c in rec.get('inner', ()):
            if c.get('kind') == 'FieldDecl':
                out.append((c.get('name'), c['type'].get('desugaredQualType', c['type']['qualType'])))
        return out

    # ---------------- statements
    def exec(self, n, st):
        """-> list of states; state.flow tells how control left the statement"""
        k = n['kind']
        m = getattr(self, 's_' + k, None)
        if m:
            return m(n, st)
        # expression statement
        outs = []
        for s, v in self.eval(n, st):
            outs.append(s)
        return outs

    def seq(self, stmts, st):
        live = [st]
        done = []
        for s in stmts:
            nxt = []
            for x in live:
                for y in self.exec(s, x):
                    (done if y.flow else nxt).append(y)
            live = self.merge_states(nxt)
            if not live:
                break
        return done + live

    def merge_states(self, sts):
        if not self.merge or len(sts) < 2:
            return sts
        if len(sts) > 400:
            raise Unsupported('too many paths')
        return self.dedup(sts)

    def dedup(self, sts):
        """merge states whose stores are identical: disjunction of path conditions"""
        groups = []
        for s in sts:
            for g in groups:
                if self.same_store(g[0], s):
                    g.append(s); break
            else:
                groups.append([s])
        out = []
        for g in groups:
            if len(g) == 1:
                out.append(g[0]); continue
            n = 0
            pcs = [x.pc for x in g]
            while all(len(p) > n for p in pcs) and len({p[n].get_id() for p in pcs}) == 1:
                n += 1
            r = g[0].copy()
            alts = [z3.And(*p[n:]) if len(p) > n else z3.BoolVal(True) for p in pcs]
            if any(z3.is_true(a) for a in alts):
                r.pc = pcs[0][:n]
            else:
                r.pc = pcs[0][:n] + (z3.Or(*alts),)
            for x in g:
                r.writes = r.writes | x.writes
            out.append(r)
        return out

    def same_val(self, a, b):
        if a is b: return True
        if type(a) is not type(b) and not (z3.is_expr(a) and z3.is_expr(b)): return False
        if z3.is_expr(a): return a.eq(b)
        if isinstance(a, BufPtr): return a.buf is b.buf and a.off.eq(b.off) and a.null.eq(b.null)
        if isinstance(a, SymPtr): return a.term.eq(b.term)
        if isinstance(a, (Null, Undef)): return True
        if isinstance(a, ListVal): return a.seq.eq(b.seq)
        if isinstance(a, IterVal): return a.lv == b.lv and a.idx.eq(b.idx)
        if isinstance(a, MapVal): return a.dom.eq(b.dom) and (a.val is None or a.val.eq(b.val))
        if isinstance(a, LocPtr): return a.lv == b.lv
        return False

    def same_store(self, a, b):
        if a.store.keys() != b.store.keys() or a.heap.keys() != b.heap.keys():
            return False
        if not (a.alloc is b.alloc or a.alloc.eq(b.alloc)): return False
        if a.log != b.log: return False
        if (a.flow is None) != (b.flow is None): return False
        if a.flow is not None and (a.flow[0] != b.flow[0] or len(a.flow) != len(b.flow) or
                                   not all(x is y or (isinstance(x, str) and x == y) or self.same_val(x, y) for x, y in zip(a.flow[1:], b.flow[1:]))):
            return False
        return all(self.same_val(v, b.store[k]) for k, v in a.store.items()) and \
            all(v.eq(b.heap[k]) for k, v in a.heap.items())

    def s_CompoundStmt(self, n, st):
        outs = self.seq([c for c in n.get('inner', ()) if c.get('kind')], st)
        dtors = [c for c in n.get('inner', ()) if c.get('kind') == 'DeclStmt' and self.has_lock(c)]
        for d in dtors:
            for s in outs:
                self.unlock_decl(s, d)
        # locals of this block die
        dead = []
        for c in n.get('inner', ()):
            if c.get('kind') == 'DeclStmt':
                for v in c.get('inner', ()):
                    if v.get('kind') == 'VarDecl' and v['id'] in self.env and not v.get('storageClass') == 'static':
                        lv = self.env[v['id']]
                        if isinstance(lv, Loc) and not qt(v).endswith('&') and len(lv) == 1 and '#' in str(lv[0]):
                            dead.append(lv[0])
        for s in outs:
            if s.flow and s.flow[0] == 'ret' and self.refs_dead(s.flow[1], dead):
                continue
            for k in [k for k in s.store if k[0] in dead]:
                del s.store[k]
        return outs

    def refs_dead(self, v, dead):
        return is_lv(v) or isinstance(v, (IterVal, LocPtr))

    def has_lock(self, declstmt):
        return any('scoped_lock' in qt(v) or 'unique_lock' in qt(v) or 'lock_guard' in qt(v)
                   for v in declstmt.get('inner', ()) if v.get('kind') == 'VarDecl')

    def unlock_decl(self, s, d):
        for v in d.get('inner', ()):
            if v.get('kind') == 'VarDecl' and v['id'] in self.env:
                lv = self.env[v['id']]
                x = s.store.get(lv)
                if isinstance(x, Opaque) and x.tag == 'lock':
                    self.lock_release(s, x)

    def lock_acquire(self, s, mutex, node):
        h = self.externs.get('#lock_acquire')
        if h: h(self, s, mutex, node)

    def lock_release(self, s, x):
        h = self.externs.get('#lock_release')
        if h: h(self, s, x.data)

    def s_NullStmt(self, n, st): return [st]

    def s_DeclStmt(self, n, st):
        live = [st]
        for v in n.get('inner', ()):
            if v.get('kind') in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'UsingDirectiveDecl',
                                 'StaticAssertDecl', 'CXXRecordDecl', 'EmptyDecl', 'EnumDecl'):
                if v.get('kind') == 'EnumDecl':
                    self.tu._index(v, None, (), self.cur_file())
                continue
            if v.get('kind') != 'VarDecl':
                raise Unsupported('declaration %s' % v.get('kind'), n, self)
            nxt = []
            for s in live:
                if s.flow: nxt.append(s); continue
                nxt += self.decl_var(v, s)
            live = nxt
        return live

    def decl_var(self, v, st):
        t = qt(v)
        lv = Loc((v.get('name', 'tmp') + '#' + self.frame + '/' + v['id'][-5:],))
        self.loc_types = dict(self.loc_types); self.loc_types[lv] = t
        if v.get('storageClass') == 'static':
            lv = Loc(('static:' + v['name'],))
            self.loc_types[lv] = t
            self.env[v['id']] = lv
            return [st]
        init = [c for c in v.get('inner', ()) if 'kind' in c and not c['kind'].endswith('Attr')]
        if t.rstrip().endswith('&'):
            outs = []
            for s, x in self.eval(init[0], st):
                if s.flow is None:
                    if is_lv(x):
                        self.env[v['id']] = x
                    else:
                        self.env[v['id']] = lv
                        self.wr(s, lv, x)
                outs.append(s)
            if len(outs) > 1:
                raise Unsupported('reference binding forks', v, self)
            return outs
        self.env[v['id']] = lv
        st.writes = st.writes | {lv}
        if not init:
            self.default_init(st, lv, t, v)
            return [st]
        outs = []
        for s, x in self.eval(init[0], st):
            if s.flow is None:
                self.init_loc(s, lv, x, t, v)
            outs.append(s)
        return outs

    def init_loc(self, s, lv, x, t, node):
        if isinstance(x, Opaque) and x.tag == 'default':
            self.default_init(s, lv, t, node)
            return
        if isinstance(x, LocPtr) and x.idx == 'ctor':
            # constructor already built the object at a temporary
            sv = self.snapshot(s, x.lv, t)
            self.wr(s, lv, sv, node)
            return
        x = self.rd(s, x, node, t)
        if isinstance(x, (Loc, HLoc)):
            x = self.snapshot(s, x, t)
        if isinstance(x, StructVal) and not x.fields:
            return
        x = self.coerce(s, x, t, node)
        self.wr(s, lv, x, node, t)

    def coerce(self, s, x, t, node):
        k = kind(t)
        if k == 'bool' and z3.is_expr(x) and z3.is_int(x):
            return x != 0
        if k == 'int' and z3.is_expr(x) and z3.is_bool(x):
            return z3.If(x, z3.IntVal(1), z3.IntVal(0))
        if k == 'ptr' and z3.is_expr(x) and z3.is_int(x) and z3.is_int_value(x) and x.as_long() == 0:
            return NULL
        return x

    def default_init(self, st, lv, t, node):
        k = kind(t)
        if k == 'string':
            self.wr(st, lv, z3.StringVal('')); return
        if k == 'list':
            et = targs(strip(t))[0]
            self.wr(st, lv, ListVal(z3.Empty(z3.SeqSort(self.sort(et))), et)); return
        if k == 'map':
            a = targs(strip(t))
            self.wr(st, lv, MapVal(z3.K(self.sort(a[0]), z3.BoolVal(False)),
                                   None if strip(t).startswith('std::set') else
                                   z3.Const(fresh_name('mval'), z3.ArraySort(self.sort(a[0]), self.sort(a[1]))),
                                   a[0], a[1] if len(a) > 1 and not strip(t).startswith('std::set') else None)); return
        if k in ('iter', 'mapiter'):
            self.wr(st, lv, UNDEF); return
        if k == 'smart':
            self.wr(st, lv, NULL); return
        if k == 'array':
            m = re.match(r'(.*)\[(\d+)\]$', strip(t))
            et, cnt = m.group(1).strip(), int(m.group(2))
            for i in range(cnt):
                self.default_init(st, lv.sub(i), et, node)
            if cnt == 0:
                st.store[lv] = UNDEF
            return
        if k == 'record' and not self.is_enum(t):
            rec = self.record(t)
            if rec is not None:
                for f, ft in self.fields(rec):
                    self.default_init(st, lv.sub(f), ft, node)
                return
            st.store[lv] = Opaque(strip(t))
            return
        self.wr(st, lv, UNDEF)

    def cond(self, n, st):
        """evaluate a condition -> [(state, Bool)]"""
        out = []
        for s, v in self.eval(n, st):
            if s.flow is None:
                v = self.truth(s, self.rd(s, v, n, qt(n)), n)
            out.append((s, v))
        return out

    def truth(self, s, v, n=None):
        if isinstance(v, bool): return z3.BoolVal(v)
        if z3.is_expr(v):
            return v if z3.is_bool(v) else v != 0
        if isinstance(v, Null): return z3.BoolVal(False)
        if isinstance(v, BufPtr): return z3.Not(v.null)
        if isinstance(v, SymPtr): return v.term != 0
        if isinstance(v, (LocPtr, FuncRef)): return z3.BoolVal(True)
        if isinstance(v, Opaque): return z3.Bool(fresh_name('opaque'))
        raise Unsupported('condition on %r' % (v,), n, self)

    def branch(self, s, b, force=False):
        """-> (state if b, state if not b), None where infeasible"""
        b = simp(as_bool(b))
        if z3.is_true(b): return s, None
        if z3.is_false(b): return None, s
        t = s.copy().assume(b)
        f = s.copy().assume(z3.Not(b))
        if not self.feasible(t): t = None
        if t is not None and not self.feasible(f): f = None
        elif t is None: return None, f
        return t, f

    def s_IfStmt(self, n, st):
        inner = [c for c in n['inner'] if c.get('kind')]
        i = 0
        pre = [st]
        if n.get('hasInit'):
            pre = self.exec(inner[0], st); i += 1
        if n.get('hasVar'):
            nx = []
            for s in pre: nx += self.exec(inner[i], s)
            pre = nx; i += 1
        cnd, th = inner[i], inner[i + 1]
        el = inner[i + 2] if n.get('hasElse') else None
        outs = []
        for s0 in pre:
            if s0.flow: outs.append(s0); continue
            for s, b in self.cond(cnd, s0):
                if s.flow: outs.append(s); continue
                t, f = self.branch(s, b)
                ts = self.exec(th, t) if t is not None else []
                fs = (self.exec(el, f) if el else [f]) if f is not None else []
                if self.ite_merge:
                    t1, f1 = [x for x in ts if not x.flow], [x for x in fs if not x.flow]
                    m = self.join_ite(s, as_bool(b), t1[0], f1[0]) if len(t1) == 1 and len(f1) == 1 else None
                    if m is not None:
                        outs += [x for x in ts + fs if x.flow] + [m]; continue
                outs += ts + fs
        return outs

    ite_merge = False

    def join_ite(self, s, b, t, f):
        """join two branches that differ only in integer or boolean variables"""
        if t.flow or f.flow or not self.same_alloc(t, f) or t.log != f.log: return None
        if t.store.keys() != f.store.keys(): return None
        for k in set(t.heap) | set(f.heap): self.heap_arr(t, k); self.heap_arr(f, k)
        if any(not v.eq(f.heap[k]) for k, v in t.heap.items()): return None
        n = len(s.pc)
        if t.pc[:n] != s.pc or f.pc[:n] != s.pc: return None
        r = t.copy()
        for k, v in t.store.items():
            w = f.store[k]
            if self.same_val(v, w): continue
            if isinstance(v, (SymPtr, Null)) and isinstance(w, (SymPtr, Null)):
                r.store[k] = SymPtr(z3.If(b, self.to_term(t, v), self.to_term(f, w)), (v if isinstance(v, SymPtr) else w).ctype); continue
            if not (z3.is_expr(v) and z3.is_expr(w) and v.sort() == w.sort() and (z3.is_int(v) or z3.is_bool(v))): return None
            r.store[k] = z3.simplify(z3.If(b, v, w))
        r.pc = s.pc
        r.assume(*[z3.Implies(b, x) for x in t.pc[n:] if not x.eq(b)])
        r.assume(*[z3.Implies(z3.Not(b), x) for x in f.pc[n:] if not x.eq(z3.Not(b))])
        r.writes = t.writes | f.writes
        return r

    def s_ReturnStmt(self, n, st):
        inner = [c for c in n.get('inner', ()) if c.get('kind')]
        if not inner:
            st.flow = ('ret', None)
            return [st]
        outs = []
        for s, v in self.eval(inner[0], st):
            if s.flow is None:
                if isinstance(v, LocPtr) and v.idx == 'ctor':
                    v = self.snapshot(s, v.lv, qt(inner[0]))
                elif is_lv(v) and inner[0].get('valueCategory') != 'lvalue':
                    v = self.rd(s, v, n, qt(inner[0]))
                    if isinstance(v, (Loc, HLoc)):
                        v = self.snapshot(s, v, qt(inner[0]))
                elif is_lv(v) and isinstance(v, Loc) and '#' in str(v[0]) and kind(qt(inner[0])) != 'record':
                    v = self.rd(s, v, n, qt(inner[0]))
                s.flow = ('ret', v)
            outs.append(s)
        return outs

    def s_BreakStmt(self, n, st):
        st.flow = ('break',); return [st]

    def s_ContinueStmt(self, n, st):
        st.flow = ('cont',); return [st]

    def s_CXXTryStmt(self, n, st):
        inner = n['inner']
        outs = []
        for s in self.exec(inner[0], st):
            if s.flow and s.flow[0] == 'throw':
                outs += self.catch(s, inner[1:], n)
            else:
                outs.append(s)
        return outs

    def catch(self, s, handlers, n):
        ty = s.flow[1]
        for h in handlers:
            inner = [c for c in h.get('inner', ()) if c.get('kind')]
            var = next((c for c in inner if c['kind'] == 'VarDecl'), None)
            ht = strip(qt(var)) if var else None
            match = (ht is None or self.exc_match(ty, ht))
            if match:
                s.flow = None
                if var is not None:
                    self.env[var['id']] = Loc(('exc#' + self.frame,))
                    s.store[Loc(('exc#' + self.frame,))] = Opaque('exception')
                blk = next(c for c in inner if c['kind'] == 'CompoundStmt')
                return self.exec(blk, s)
        return [s]

    def exc_match(self, ty, ht):
        a, b = ty.split('::')[-1], ht.split('::')[-1]
        if a == b: return True
        bases = {'XMLError': 'runtime_error', 'NotFound': 'runtime_error', 'runtime_error': 'exception',
                 'FilterException': 'runtime_error', 'logic_error': 'exception', 'out_of_range': 'logic_error',
                 'RouterException': 'runtime_error', 'AuthException':'runtime_error'}
        while a in bases:
            a = bases[a]
            if a == b: return True
        return False

    def s_SwitchStmt(self, n, st):
        inner = [c for c in n['inner'] if c.get('kind')]
        cnd, bodyn = inner[-2], inner[-1]
        items = []       # flat list: ('case', values) / ('default',) / stmt
        def flat(x):
            if x['kind'] == 'CaseStmt':
                ci = [c for c in x['inner'] if c.get('kind')]
                items.append(('case', ci[0]))
                for c in ci[1:]: flat(c)
            elif x['kind'] == 'DefaultStmt':
                items.append(('default',))
                for c in x['inner']: flat(c)
            else:
                items.append(x)
        for c in bodyn['inner']:
            flat(c)
        outs = []
        for s, v in self.eval(cnd, st):
            if s.flow: outs.append(s); continue
            v = self.rd(s, v, n, qt(cnd))
            rest = s
            starts = []
            seen = []
            for i, it in enumerate(items):
                if isinstance(it, tuple) and it[0] == 'case':
                    cv = self.const_int(it[1])
                    seen.append(cv)
                    t = s.copy().assume(v == cv)
                    if self.feasible(t): starts.append((t, i))
            other = s.copy().assume(*[v != x for x in seen])
            if self.feasible(other):
                di = [i for i, it in enumerate(items) if isinstance(it, tuple) and it[0] == 'default']
                if di: starts.append((other, di[0]))
                else: outs.append(other)
            for t, i in starts:
                for y in self.seq([x for x in items[i:] if not isinstance(x, tuple)], t):
                    if y.flow and y.flow[0] == 'break': y.flow = None
                    outs.append(y)
        return outs

    def const_int(self, n):
        if 'value' in n and n['kind'] in ('ConstantExpr', 'IntegerLiteral', 'CharacterLiteral'):
            return int(n['value'])
        for c in n.get('inner', ()):
            if 'kind' in c:
                return self.const_int(c)
        if n.get('kind') == 'DeclRefExpr':
            d = self.tu.by_id.get(n['referencedDecl']['id'])
            if d is not None and '_value' in d: return d['_value']
        raise Unsupported('constant expected', n, self)

    # ---------------- loops
    def s_WhileStmt(self, n, st):
        inner = [c for c in n['inner'] if c.get('kind')]
        return self.loop(n, st, inner[0], inner[-1], None)

    def s_DoStmt(self, n, st):
        inner = [c for c in n['inner'] if c.get('kind')]
        body, cnd = inner
        # first iteration, then a while loop
        outs = []
        for s in self.exec(body, st):
            if s.flow and s.flow[0] == 'break':
                s.flow = None; outs.append(s); continue
            if s.flow and s.flow[0] == 'cont': s.flow = None
            if s.flow: outs.append(s); continue
            outs += self.loop(n, s, cnd, body, None)
        return outs

    def s_ForStmt(self, n, st):
        init, var, cnd, inc, bodyn = n['inner']
        outs = []
        pre = self.exec(init, st) if init.get('kind') else [st]
        for s in pre:
            if s.flow: outs.append(s); continue
            outs += self.loop(n, s, cnd if cnd.get('kind') else None, bodyn, inc if inc.get('kind') else None)
        if init.get('kind') == 'DeclStmt':
            for v in init.get('inner', ()):
                if v.get('kind') == 'VarDecl' and v['id'] in self.env:
                    lv = self.env[v['id']]
                    for s in outs:
                        for k in [k for k in s.store if k[0] == lv[0]]:
                            del s.store[k]
        return outs

    def s_CXXForRangeStmt(self, n, st):
        # clang spells out what the statement means: declarations of range, begin and end, condition, increment, loop variable
        ks = n['inner']
        decls = [d for d in ks[:-4] if d.get('kind')]
        cnd, inc, var, body = ks[-4:]
        if not all(d['kind'] == 'DeclStmt' for d in decls): raise Unsupported('range-for', n, self)
        blk = dict(kind='CompoundStmt', id=n['id'] + '.body', inner=[var, body], range=n.get('range', {}))
        live, outs = [st], []
        for d in decls:
            nxt = []
            for s in live:
                for y in self.exec(d, s): (outs if y.flow else nxt).append(y)
            live = nxt
        for s in live: outs += self.loop(n, s, cnd, blk, inc)
        for d in decls:
            for v in d.get('inner', ()):
                if v.get('kind') == 'VarDecl' and v['id'] in self.env:
                    lv = self.env[v['id']]
                    if str(v.get('name', '')).startswith('__') and not v['name'].startswith('__range') or not v['type']['qualType'].rstrip().endswith('&'):
                        for s in outs:
                            for k in [k for k in s.store if k[0] == lv[0]]: del s.store[k]
        return outs

    def loop_iter(self, s, cnd, bodyn, inc):
        """one iteration from head state s -> (exit states, back-edge states)"""
        exits, backs = [], []
        if cnd is not None:
            cs = self.cond(cnd, s)
        else:
            cs = [(s, z3.BoolVal(True))]
        for s1, b in cs:
            if s1.flow: exits.append(s1); continue
            t, f = self.branch(s1, b)
            if f is not None: exits.append(f)
            if t is None: continue
            for y in self.exec(bodyn, t):
                if y.flow is None or y.flow[0] == 'cont':
                    y.flow = None
                    if inc is not None:
                        for z, _ in self.eval(inc, y):
                            (exits if z.flow else backs).append(z)
                    else:
                        backs.append(y)
                elif y.flow[0] == 'break':
                    y.flow = None
                    exits.append(y)
                else:
                    exits.append(y)
        if cnd is not None:
            # a way round the loop that makes its condition false for certain leaves it: no invariant has to speak about it
            stay = []
            for z in backs:
                f = self.leaves(cnd, z, s)
                if f is None: stay.append(z)
                else: exits += f
            backs = stay
        return exits, self.merge_states(backs)

    def leaves(self, cnd, z, head):
        def lit(v): return isinstance(v, Null) or (z3.is_expr(v) and (z3.is_true(v) or z3.is_false(v) or z3.is_int_value(v)))
        if not any(lv[0] != 'heap' and lit(z.store.get(lv)) and not lit(head.store.get(lv)) or
                   (lv[0] != 'heap' and lit(z.store.get(lv)) and z3.is_expr(z.store.get(lv)) and z3.is_expr(head.store.get(lv)) and not z.store[lv].eq(head.store[lv]))
                   for lv in z.writes): return None
        out = []
        self.quiet += 1
        try:
            for s1, b in self.cond(cnd, z.copy()):
                if s1.flow: return None
                t, f = self.branch(s1, b)
                if t is not None: return None
        finally:
            self.quiet -= 1
        for s1, b in self.cond(cnd, z.copy()):
            t, f = self.branch(s1, b)
            if t is not None: raise Unsupported('loop condition', cnd, self)
            if f is not None: out.append(f)
        return out

    def loop(self, n, st, cnd, bodyn, inc):
        un = self.unroll_bound(n, st, cnd)
        if un:
            return self.unroll_loop(n, st, cnd, bodyn, inc, un)
        ordinal = self.loop_count
        if not self.quiet:
            self.loop_count += 1
        entry = st.copy()
        pre_locs = set(st.store.keys())
        lid = n.get('id')
        modset = dict(self.modcache.get(lid, {}))      # Loc/heapkey -> representative value
        modset = {k: v for k, v in modset.items() if k[0] == 'heap' or k == ('alloc',) or k in entry.store}
        nested = self.quiet > 0
        self.quiet += 1
        saved_loc = self.loc_types
        self.skip_houdini += 1
        released = False
        try:
            for rnd in range(12):
                head = self.loop_head(entry, modset, n)
                h0 = head.copy(); h0.writes = frozenset()
                ex_, backs = self.loop_iter(h0, cnd, bodyn, inc)
                new = False
                wr = set()
                for s in backs: wr |= s.writes
                for lv in sorted(wr, key=str):
                    if lv in modset or (lv[0] != 'heap' and not self.preexisting(lv, entry, backs)):
                        continue
                    if lv[0] == 'heap':
                        modset[lv] = None; new = True; continue
                    vals = [entry.store.get(lv)] + [s.store.get(lv) for s in backs]
                    if lv not in entry.store:
                        # lazily materialised field of an object that existed before
                        vals = [x for x in vals if x is not None]
                        if not vals: continue
                    modset[lv] = self.join_kind(vals); new = True
                for lv in list(modset):
                    if lv[0] == 'heap': continue
                    vals = [entry.store.get(lv)] + [s.store.get(lv) for s in backs]
                    vals = [v for v in vals if v is not None]
                    j = self.join_kind(vals) if vals else modset[lv]
                    if type(j) is not type(modset[lv]) and not (z3.is_expr(j) and z3.is_expr(modset[lv])):
                        modset[lv] = j; new = True
                    elif isinstance(j, BufPtr) and z3.is_false(modset[lv].null) and not z3.is_false(j.null):
                        modset[lv] = j; new = True
                    elif isinstance(j, (IterVal, MapIter)) and type(j) is type(modset[lv]):
                        if any(isinstance(v, type(j)) and v.lv != j.lv for v in vals):
                            raise Unsupported('iterator moves between containers in a loop', n, self)
                        if j.lv != modset[lv].lv:
                            modset[lv] = j; new = True
                if any(not self.same_alloc(s, head) for s in backs) and ('alloc',) not in modset:
                    modset[('alloc',)] = None; new = True
                if not new: break
            else:
                raise Unsupported('modified set does not stabilise', n, self)
            self.modcache[lid] = dict(modset)
            self.skip_houdini -= 1
            released = True
            # Houdini over invariant candidates
            head = self.loop_head(entry, modset, n)
            mk = lambda cur: self.view(entry, cur, modset, ordinal)
            cands = [] if self.skip_houdini else self.candidates(mk, entry, head, ordinal)
            prev = self.invcache.get(lid) if self.in_outer else None
            if prev is not None:
                cands = [c for c in cands if c[0] in prev]
            ent = self.entry_view(entry, modset)
            keep, items = [], []
            for nm, fn in cands:
                try:
                    f = fn(mk(ent))
                except (AttributeError, KeyError, TypeError, Unsupported, z3.Z3Exception) as e:
                    continue
                if f is None: continue
                keep.append((nm, fn)); items.append((ent.pc, self.unmark(f)))
            keep = [k for k, r in zip(keep, self.quick_many(items)) if r == 'yes']
            late = [x for x in keep if hasattr(x[1], 'after')]      # candidates that stand on others wait for those
            keep = [x for x in keep if not hasattr(x[1], 'after')]
            inner_saved = self.invcache
            rcache = {}
            for rnd in range(30):
                h = head.copy(); h.writes = frozenset()
                for nm, fn in keep: h.assume(fn(mk(h)))
                self.in_outer += 1
                sn, self.newcache = self.newcache, {}
                self.invcache = rcache
                try:
                    ex_, backs = self.loop_iter(h.copy(), cnd, bodyn, inc)
                finally:
                    self.in_outer -= 1
                    self.invcache = inner_saved
                    rcache, self.newcache = self.newcache, sn
                if rnd == 0 and any(hasattr(fn, 'needs') for _, fn in keep):
                    # candidates about values the loop never looks at hold only by accident: drop them unchecked
                    seen = set()
                    for s in list(backs) + list(ex_):
                        for p in s.pc[len(h.pc):]: seen |= consts_of(p)
                        for lv, v in s.store.items():
                            if z3.is_expr(v) and not (lv in h.store and v is h.store[lv]) and not (z3.is_expr(h.store.get(lv)) and v.eq(h.store[lv])): seen |= consts_of(v)
                    def wanted(fn):
                        for lv in getattr(fn, 'needs', ()):
                            v = h.store.get(lv)
                            k = {lv} if isinstance(lv, str) else consts_of(v) if z3.is_expr(v) else None
                            if k and not k & seen: return False
                        return True
                    keep = [x for x in keep if wanted(x[1])]
                bad = set()
                for s in backs:
                    todo = [i for i in range(len(keep)) if i not in bad]
                    gs = [(s.pc, self.unmark(keep[i][1](mk(s)))) for i in todo]
                    rs = self.quick_many(gs)
                    for rx, short in ((self.cur_contract.firm, True), (None if self.in_outer else self.cur_contract.strong, False)):
                        again = [k for k, r in enumerate(rs) if r == 'unknown' and rx and re.search(rx, keep[todo[k]][0])]
                        for k, r in zip(again, self.quick_hard([gs[k] for k in again], short)): rs[k] = r
                    bad |= {i for i, r in zip(todo, rs) if r != 'yes'}
                if bad:
                    keep = [x for i, x in enumerate(keep) if i not in bad]
                elif late:
                    names = {nm for nm, fn in keep}
                    keep += [x for x in late if x[1].after in names]
                    late = []
                else: break
            # termination measure
            meas = None
            msgs = self.measure_candidates(mk, entry, head, ordinal)
            for nm, fn, ms in ([] if nested else [(a, b, m) for m in (self.quick_ms / 6, None) for a, b in msgs]):
                try:
                    m0 = fn(mk(h))
                    if m0 is None: continue
                    ok = all(r == 'yes' for r in self.quick_many([(s.pc, z3.And(m0 >= 0, fn(mk(s)) < m0)) for s in backs], ms))
                except (AttributeError, KeyError, TypeError, Unsupported, z3.Z3Exception):
                    continue
                if ok:
                    meas = (nm, fn); break
            if meas is None and msgs and not self.no_term:
                meas = msgs[0]
        finally:
            if not released: self.skip_houdini -= 1
            self.quiet -= 1
            self.loc_types = saved_loc
        if os.environ.get('VCX_DEBUG'):
            print('  ' * self.quiet + 'loop', self.where(n), 'mod', [self.lvname(x) for x in modset], 'inv', [k[0] for k in keep],
                  'measure', meas and meas[0])
        # final pass, recording obligations
        ent = self.entry_view(entry, modset)
        for nm, fn in keep:
            self.require(ent.copy(), self.unmark(fn(mk(ent))), 'loop invariant holds on entry: ' + nm, n, 'inv')
        h = head.copy(); h.writes = frozenset()
        for nm, fn in keep: h.assume(fn(mk(h)))
        sv = self.invcache
        self.in_outer += 1
        self.invcache = rcache
        sn, self.newcache = self.newcache, {}
        try:
            exits, backs = self.loop_iter(h.copy(), cnd, bodyn, inc)
        finally:
            self.in_outer -= 1
            self.invcache = sv
            self.newcache = sn
        if self.in_outer and not self.skip_houdini:
            self.newcache.setdefault(lid, set()).update(k[0] for k in keep)
        for s in backs:
            for nm, fn in keep:
                self.require(s.copy(), self.unmark(fn(mk(s))), 'loop invariant preserved: ' + nm, n, 'inv')
            if meas is not None and not self.no_term:
                m0 = meas[1](mk(h))
                self.require(s.copy(), z3.And(m0 >= 0, meas[1](mk(s)) < m0), 'loop terminates (%s decreases)' % meas[0], n, 'term')
            elif not self.no_term and not self.quiet:
                self.require(s.copy(), z3.BoolVal(False), 'loop terminates', n, 'term')
        if not self.quiet:
            self.loopinfo.append((self.cur_fn, self.where(n), [k[0] for k in keep], meas and meas[0]))
        w = st.writes | frozenset(k for k in modset)
        for s in exits:
            s.writes = s.writes | w
        return self.merge_states(exits)

    no_term = False

    def same_alloc(self, a, b):
        return a.alloc is b.alloc or a.alloc.eq(b.alloc)

    def preexisting(self, lv, entry, backs):
        if lv in entry.store: return True
        r = lv[0]
        if any(k[0] == r for k in entry.store): return True
        return not ('#' in str(r))     # this / ghost / static / args

    def unroll_bound(self, n, st, cnd):
        return None

    def unroll_loop(self, n, st, cnd, bodyn, inc, bound):
        live, outs = [st], []
        for i in range(bound + 1):
            nxt = []
            for s in live:
                e, b = self.loop_iter(s, cnd, bodyn, inc)
                outs += e; nxt += b
            live = [s for s in nxt if self.feasible(s)]
            if not live: break
        for s in live:
            self.require(s, z3.BoolVal(False), 'constant loop bound is complete', n, 'term')
        return self.merge_states(outs)

    def entry_view(self, entry, modset):
        return entry

    def loop_head(self, entry, modset, n):
        h = entry.copy()
        for lv, rep in modset.items():
            if lv[0] == 'heap':
                key = lv[1:]
                a = self.heap_arr(h, key)
                h.heap[key] = z3.Const(fresh_name('H.%s.%s' % key), a.sort())
            elif lv == ('alloc',):
                a = z3.Int(fresh_name('alloc'))
                h.assume(a >= h.alloc)
                h.alloc = a
            else:
                v = self.havoc_value(h, rep, self.lvname(lv))
                h.store[lv] = v
                t = self.loc_types.get(lv)
                if t and z3.is_expr(v) and z3.is_int(v) and int_range(t):
                    lo, hi = int_range(t)
                    h.assume(v >= lo, v <= hi)
        if self.field_inv:
            self.field_inv(self, h, modset)
        return h

    def view(self, entry, cur, modset, ordinal):
        vars = [(self.lvname(lv), lv) for lv in modset if lv[0] not in ('heap', 'alloc')]
        return LoopView(self, self.cur_contract, entry, cur, vars, self.fn_args, self.fn_this, ordinal, self.cur_fn, self.fn_pre)

    def candidates(self, mk, entry, head, ordinal):
        out = list(self.generic_candidates(mk(head), entry, head))
        con = self.cur_contract
        for nm, fn in con.invariants(mk(head)) or ():
            out.append((nm, fn))
        return out

    def generic_candidates(self, L, entry, head):
        out = []
        for n, lv, v in L._vals():
            e = entry.store.get(lv)
            if z3.is_expr(v) and z3.is_int(v):
                out.append((n + ' >= 0', lambda L, lv=lv: L.cur.store[lv] >= 0))
                if z3.is_expr(e) and z3.is_int(e):
                    out.append((n + ' >= its start', lambda L, lv=lv: L.cur.store[lv] >= L.entry.store[lv]))
                    out.append((n + ' <= its start', lambda L, lv=lv: L.cur.store[lv] <= L.entry.store[lv]))
            if isinstance(v, BufPtr):
                out.append((n + ' inside buffer', lambda L, lv=lv: z3.And(L.cur.store[lv].off >= 0, L.cur.store[lv].off <= L.cur.store[lv].buf.n)))
                if isinstance(e, BufPtr):
                    out.append((n + ' at or after its start', lambda L, lv=lv: L.cur.store[lv].off >= L.entry.store[lv].off))
            if isinstance(v, MapIter) and v.idx is not None:
                out.append((n + ' valid iterator', lambda L, lv=lv: z3.And(L.cur.store[lv].idx >= 0, L.cur.store[lv].idx <= nkeys(L.cur.store[lv].dom)(L.cur.store[lv].dom))))
            if isinstance(v, IterVal):
                out.append((n + ' valid iterator', lambda L, lv=lv: z3.And(
                    L.cur.store[lv].idx >= 0, L.cur.store[lv].idx <= self.clen(L.cur, L.cur.store[lv].lv))))
        return out

    def clen(self, st, lv):
        l = self.rd_peek(st, lv)
        return z3.Length(l.seq) if isinstance(l, ListVal) else z3.Length(l)

    def measure_candidates(self, mk, entry, head, ordinal):
        out = []
        L = mk(head)
        for nm, fn in self.cur_contract.measures(L) or ():
            out.append((nm, fn))
        for n, lv, v in L._vals():
            if isinstance(v, BufPtr):
                out.append(('remaining input after ' + n, lambda L, lv=lv: L.cur.store[lv].buf.n - L.cur.store[lv].off))
            if isinstance(v, IterVal):
                out.append(('elements after ' + n, lambda L, lv=lv: self.clen(L.entry, L.cur.store[lv].lv) - L.cur.store[lv].idx))
            if isinstance(v, MapIter) and v.idx is not None:
                out.append(('entries after ' + n, lambda L, lv=lv: nkeys(L.cur.store[lv].dom)(L.cur.store[lv].dom) - L.cur.store[lv].idx))
            if isinstance(v, SymPtr) and self.ptr_measure(v) is not None:
                out.append(('nodes after ' + n, lambda L, lv=lv: self.ptr_measure(L.cur.store[lv])))
            if z3.is_expr(v) and z3.is_int(v):
                bufs = [x for x in entry.store.values() if isinstance(x, BufPtr)]
                for b in bufs:
                    out.append(('input length - ' + n, lambda L, lv=lv, b=b: b.buf.n - b.off - L.cur.store[lv]))
                for k2, s in entry.store.items():
                    if z3.is_expr(s) and z3.is_string(s):
                        out.append(('length - ' + n, lambda L, lv=lv, s=s: z3.Length(s) - L.cur.store[lv]))
                for k2, s in entry.store.items():
                    if z3.is_expr(s) and z3.is_int(s) and k2 != lv:
                        out.append(('%s - %s' % (self.lvname(k2), n), lambda L, lv=lv, s=s: s - L.cur.store[lv]))
                out.append((n, lambda L, lv=lv: L.cur.store[lv]))
        return out

    def ptr_measure(self, p):
        return None

    # ---------------- expressions
    def eval(self, n, st):
        m = getattr(self, 'e_' + n['kind'], None)
        if m is None:
            raise Unsupported('expression %s' % n['kind'], n, self)
        return m(n, st)

    def kids(self, n):
        return [c for c in n.get('inner', ()) if c.get('kind')]

    def ev1(self, n, st, f):
        """evaluate n to an rvalue and continue with f(state, value) -> list"""
        out = []
        for s, v in self.eval(n, st):
            if s.flow is not None: out.append((s, None)); continue
            out += f(s, self.rd(s, v, n, qt(n)))
        return out

    def evlv(self, n, st, f):
        out = []
        for s, v in self.eval(n, st):
            if s.flow is not None: out.append((s, None)); continue
            out += f(s, v)
        return out

    def evs(self, ns, st, f):
        """evaluate a list of expressions (lvalues stay lvalues)"""
        def go(i, s, acc):
            if i == len(ns):
                return f(s, acc)
            return self.evlv(ns[i], s, lambda s2, v: go(i + 1, s2, acc + [v]))
        return go(0, st, [])

    def e_passthru(self, n, st):
        return self.eval(self.kids(n)[0], st)

    e_ParenExpr = e_ExprWithCleanups = e_ConstantExpr = e_CXXBindTemporaryExpr = e_passthru
    e_SubstNonTypeTemplateParmExpr = e_passthru
    e_CXXDefaultInitExpr = e_passthru

    def e_MaterializeTemporaryExpr(self, n, st):
        return self.eval(self.kids(n)[0], st)

    def e_CXXDefaultArgExpr(self, n, st):
        k = self.kids(n)
        if k: return self.eval(k[0], st)
        return [(st, Opaque('defaultarg'))]

    def e_IntegerLiteral(self, n, st): return [(st, z3.IntVal(int(n['value'])))]
    def e_CharacterLiteral(self, n, st):
        v = int(n['value'])
        return [(st, z3.IntVal(v if v < 128 else v - 256 if v < 256 else v))]
    def e_CXXBoolLiteralExpr(self, n, st): return [(st, z3.BoolVal(bool(n['value'])))]
    def e_CXXNullPtrLiteralExpr(self, n, st): return [(st, NULL)]
    def e_GNUNullExpr(self, n, st): return [(st, z3.IntVal(0))]
    def e_FloatingLiteral(self, n, st): return [(st, z3.RealVal(n['value']))]

    def e_StringLiteral(self, n, st):
        import ast as pyast
        s = n['value']
        try:
            t = pyast.literal_eval('b' + s) if '\\u' not in s else pyast.literal_eval(s).encode()
        except Exception:
            t = s.strip('"').encode()
        return [(st, self.lit(t))]

    def lit(self, b):
        if isinstance(b, str): b = b.encode('latin-1')
        key = ('lit', b)
        if key not in self.lits:
            x = str_buf(z3.StringVal(''.join(zesc(c) for c in b)))
            x.name = 'lit:' + b.decode('latin-1')
            x.lit = b
            x.n = z3.IntVal(len(b))
            x.term = z3.StringVal(''.join(zesc(c) for c in b))
            def rd(i, b=b):
                i = simp(i) if z3.is_expr(i) else z3.IntVal(i)
                if z3.is_int_value(i):
                    k = i.as_long()
                    c = b[k] if 0 <= k < len(b) else 0
                    return z3.IntVal(c if c < 128 else c - 256)
                e = z3.IntVal(0)
                for k in range(len(b) - 1, -1, -1):
                    e = z3.If(i == k, z3.IntVal(b[k] if b[k] < 128 else b[k] - 256), e)
                return e
            x.rd = rd
            self.lits[key] = x
        return BufPtr(self.lits[key], z3.IntVal(0))

    lits = {}

    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        return [(st, z3.IntVal(8))]      # sizeof: only used as allocation size; value never relied on

    def e_ImplicitValueInitExpr(self, n, st):
        return [(st, self.zero(qt(n)))]

    def e_CXXScalarValueInitExpr(self, n, st):
        return [(st, self.zero(qt(n)))]

    def zero(self, t):
        k = kind(t)
        if k == 'ptr': return NULL
        if k == 'bool': return z3.BoolVal(False)
        if k == 'string': return z3.StringVal('')
        return z3.IntVal(0)

    def e_InitListExpr(self, n, st):
        t = qt(n)
        if kind(t) == 'array':
            ks = self.kids(n)
            def f(s, vs):
                fields = {}
                for i, v in enumerate(vs):
                    fields[(i,)] = self.rd(s, v, n)
                return [(s, StructVal(t, fields))]
            m = re.match(r'(.*)\[(\d+)\]$', strip(t))
            return self.evs(ks, st, f)
        ks = self.kids(n)
        if len(ks) == 1 and kind(t) != 'record':
            return self.eval(ks[0], st)
        if not ks: return [(st, self.zero(t))]
        raise Unsupported('initializer list', n, self)

    def e_DeclRefExpr(self, n, st):
        rd = n['referencedDecl']
        if rd['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return [(st, FuncRef(rd))]
        if rd['kind'] == 'EnumConstantDecl':
            d = self.tu.by_id.get(rd['id'])
            if d is not None and '_value' in d:
                return [(st, z3.IntVal(d['_value']))]
            v = self.enum_const(rd['name'], n)
            if z3.is_expr(v): st.assume(v >= 0, v < 2**31)
            return [(st, v if z3.is_expr(v) else z3.IntVal(v))]
        if rd['id'] in self.env:
            return [(st, self.env[rd['id']])]
        # global
        nm = rd.get('name', '?')
        if nm == 'npos': return [(st, z3.IntVal(2**64 - 1))]
        lv = Loc(('global:' + nm,))
        t = rd['type'].get('desugaredQualType', rd['type']['qualType'])
        self.loc_types = dict(self.loc_types); self.loc_types.setdefault(lv, t)
        if lv not in st.store and 'const' in t.split() or t.startswith('const '):
            g = self.tu.by_id.get(rd['id'])
            if lv not in st.store and g is not None and self.kids(g):
                rs = self.eval(self.kids(g)[0], st.copy())
                if len(rs) == 1:
                    v = self.rd(rs[0][0], rs[0][1], n)
                    if z3.is_expr(v) or isinstance(v, BufPtr):
                        st.store[lv] = self.to_string(v) if kind(t) == 'string' else v
                    elif isinstance(v, StructVal):
                        for p_, x_ in v.fields.items():
                            st.store[Loc(lv + tuple(p_))] = x_
        self.guard_check(st, lv, n)
        return [(st, lv)]

    ENUM = {'XML_ELEMENT_NODE': 1, 'XML_ATTRIBUTE_NODE': 2, 'XML_TEXT_NODE': 3, 'XML_CDATA_SECTION_NODE': 4,
            'XML_ENTITY_REF_NODE': 5, 'XML_ENTITY_NODE': 6, 'XML_PI_NODE': 7, 'XML_COMMENT_NODE': 8}

    def enum_const(self, name, n):
        if name in self.ENUM: return self.ENUM[name]
        return z3.Int('enum:' + name)      # enumerator of a library: some fixed value

    def e_CXXThisExpr(self, n, st):
        t = self.this
        if isinstance(t, SymPtr): return [(st, t)]
        return [(st, LocPtr(t))]

    def e_MemberExpr(self, n, st):
        base = self.kids(n)[0]
        nm = n.get('name', '')
        if n.get('isArrow'):
            return self.ev1(base, st, lambda s, v: self.member(s, self.deref(s, v, n, qt(base)), nm, n))
        return self.evlv(base, st, lambda s, v: self.member(s, v, nm, n, base))

    def member(self, s, lv, nm, n, base=None):
        mt = qt(n)
        if isinstance(lv, MapPair):
            return [(s, lv.first if nm == 'first' else lv.second)]
        if isinstance(lv, SymPtr):       # element held by value in a container
            lv = HLoc(hrec(lv.ctype), lv.term, ())
        if isinstance(lv, (Loc, HLoc)):
            r = lv.sub(nm)
            if isinstance(r, Loc):
                if r not in self.loc_types:
                    self.loc_types = dict(self.loc_types); self.loc_types[r] = mt
                self.guard_check(s, r, n)
            else:
                self.heap_types.setdefault(r.key(), mt)
            return [(s, r)]
        if isinstance(lv, StructVal):
            if (nm,) in lv.fields: return [(s, lv.fields[(nm,)])]
            sub = {p[1:]: x for p, x in lv.fields.items() if p[0] == nm}
            return [(s, StructVal(mt, sub))]
        if isinstance(lv, MapIter):
            return [(s, ('mapiter-member', lv, nm))]
        if is_lv(lv):
            v = self.rd(s, lv, n, qt(base) if base else None)
            if v is not lv:
                return self.member(s, v, nm, n, base)
        if isinstance(lv, Opaque):
            return [(s, Opaque(lv.tag + '.' + nm))]
        raise Unsupported('member %s of %r' % (nm, lv), n, self)

    def guard_check(self, s, lv, n):
        g = self.guards.get(lv[-1].replace('global:', ''))
        if g:
            h = self.externs.get('#guard')
            if h: h(self, s, lv, g, n)

    def deref(self, s, v, n, ctype=None):
        """pointer value -> lvalue"""
        if isinstance(v, LocPtr):
            if isinstance(v.idx, int) and v.idx == 0 or v.idx == 'ctor':
                return v.lv
            return ArrElem(v.lv, v.idx)
        if isinstance(v, SymPtr):
            self.require(s, v.term != 0, 'no null dereference', n)
            return HLoc(hrec(v.ctype), v.term, ())
        if isinstance(v, BufPtr):
            if not z3.is_false(v.null):
                self.require(s, z3.Not(v.null), 'no null dereference', n)
            return BLoc(v.buf, v.off)
        if isinstance(v, Null) or (z3.is_expr(v) and z3.is_int_value(v)):
            self.require(s, z3.BoolVal(False), 'no null dereference', n)
            s.flow = ('dead',)
            return Loc(('dead#',))
        if isinstance(v, IterVal):
            return ListElem(v.lv, v.idx)
        if isinstance(v, MapIter):
            return v
        if isinstance(v, (HLoc, Loc, MapPair)):
            return v
        if isinstance(v, Opaque):
            return Loc(('opaque#' + fresh_name(v.tag),))
        raise Unsupported('dereference of %r' % (v,), n, self)

    def e_ArraySubscriptExpr(self, n, st):
        a, i = self.kids(n)
        def f(s, vs):
            p = self.rd(s, vs[0], n, qt(a))
            ix = self.rd(s, vs[1], n, qt(i))
            return [(s, self.index(s, p, ix, n))]
        return self.evs([a, i], st, f)

    def index(self, s, p, ix, n):
        if isinstance(p, BufPtr):
            if not z3.is_false(p.null):
                self.require(s, z3.Not(p.null), 'no null dereference', n)
            return BLoc(p.buf, simp(p.off + ix))
        if isinstance(p, LocPtr):
            lv = p.lv
            if isinstance(lv, Loc):
                v = s.store.get(lv)
                if isinstance(v, ArrVal):
                    return ArrElem(lv, ix)
                ix = simp(ix)
                if z3.is_int_value(ix):
                    return lv.sub(ix.as_long())
            raise Unsupported('symbolic index into local array', n, self)
        if isinstance(p, SymPtr):
            # element of a heap array: identity (base, index)
            h = self.externs.get('#symindex')
            if h: return h(self, s, p, ix, n)
            if kind(p.ctype) == 'int' and strip(p.ctype) in ('char', 'unsigned char'):
                return BLoc(self.heap_str(p), ix)
        raise Unsupported('index of %r' % (p,), n, self)

    def e_ImplicitCastExpr(self, n, st):
        ck = n.get('castKind')
        sub = self.kids(n)[0]
        if ck == 'LValueToRValue':
            return self.ev1(sub, st, lambda s, v: [(s, v)])
        if ck in ('NoOp', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'UncheckedDerivedToBase', 'DerivedToBase',
                  'UserDefinedConversion', 'ConstructorConversion', 'BitCast', 'ToVoid', 'AtomicToNonAtomic', 'Dependent'):
            if ck == 'BitCast' and is_ptr(qt(n)):
                # memory from an allocator gets the type it is first used with
                return self.ev1(sub, st, lambda s, v: [(s, SymPtr(v.term, pointee(qt(n))) if isinstance(v, SymPtr) and strip(v.ctype) == 'void' and strip(pointee(qt(n))) != 'void' else v)])
            return self.eval(sub, st)
        if ck == 'ArrayToPointerDecay':
            def f(s, v):
                if isinstance(v, BufPtr): return [(s, v)]
                if is_lv(v): return [(s, LocPtr(v))]
                return [(s, v)]
            return self.evlv(sub, st, f)
        if ck == 'NullToPointer':
            return [(st, NULL)]
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'):
            return self.ev1(sub, st, lambda s, v: [(s, self.truth(s, v, n))])
        if ck == 'IntegralCast':
            return self.ev1(sub, st, lambda s, v: [(s, self.int_cast(s, v, qt(n), qt(sub), n))])
        if ck == 'BooleanToSignedIntegral':
            return self.ev1(sub, st, lambda s, v: [(s, z3.If(v, z3.IntVal(1), z3.IntVal(0)))])
        if ck in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast'):
            raise Unsupported('floating point', n, self)
        raise Unsupported('cast %s' % ck, n, self)

    def e_cast(self, n, st):
        return self.e_ImplicitCastExpr(n, st)

    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXConstCastExpr = e_CXXReinterpretCastExpr = e_cast

    def e_CXXFunctionalCastExpr(self, n, st):
        return self.e_ImplicitCastExpr(n, st)

    def e_CXXDynamicCastExpr(self, n, st):
        raise Unsupported('dynamic_cast', n, self)

    def int_cast(self, s, v, t, ft, n):
        if z3.is_expr(v) and z3.is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        r = int_range(t)
        if r is None: return v
        fr = int_range(ft)
        if fr and r[0] <= fr[0] and fr[1] <= r[1]: return v
        if not z3.is_expr(v): return v
        return self.wrap(s, v, r)

    def wrap(self, s, v, r):
        lo, hi = r
        v1 = simp(v)
        if z3.is_int_value(v1):
            x = v1.as_long()
            return z3.IntVal((x - lo) % (hi - lo + 1) + lo)
        if self.quick(s.pc, z3.And(v >= lo, v <= hi), 800) == 'yes':
            return v
        M = hi - lo + 1
        w = z3.If(z3.And(v >= lo, v <= hi), v, ((v - lo) % M) + lo)
        return w

    def arith(self, s, v, t, n):
        r = int_range(t)
        if r is None: return v
        if r[0] < 0:
            if not self.no_overflow_checks:
                self.require(s, z3.And(v >= r[0], v <= r[1]), 'no signed overflow', n)
            return v
        return self.wrap(s, v, r)

    no_overflow_checks = False

    def e_UnaryOperator(self, n, st):
        op = n['opcode']
        sub = self.kids(n)[0]
        if op == '&':
            def f(s, v):
                if is_lv(v):
                    if isinstance(v, HLoc) and not v.path: return [(s, SymPtr(v.term, v.rec))]
                    if isinstance(v, BLoc): return [(s, BufPtr(v.buf, v.off))]
                    return [(s, LocPtr(v))]
                if isinstance(v, FuncRef): return [(s, v)]
                raise Unsupported('address of %r' % (v,), n, self)
            return self.evlv(sub, st, f)
        if op == '*':
            return self.ev1(sub, st, lambda s, v: [(s, self.deref(s, v, n, qt(sub)))])
        if op in ('++', '--'):
            def f(s, lv):
                v = self.rd(s, lv, n, qt(sub))
                d = 1 if op == '++' else -1
                nv = self.add(s, v, z3.IntVal(d), qt(sub), n)
                self.wr(s, lv, nv, n, qt(sub))
                return [(s, v if n.get('isPostfix') else lv)]
            return self.evlv(sub, st, f)
        if op == '!':
            return self.ev1(sub, st, lambda s, v: [(s, simp(z3.Not(self.truth(s, v, n))))])
        if op == '-':
            return self.ev1(sub, st, lambda s, v: [(s, self.arith(s, -self.num(v), qt(n), n))])
        if op == '+':
            return self.ev1(sub, st, lambda s, v: [(s, self.num(v))])
        if op == '__extension__':
            return self.eval(sub, st)
        raise Unsupported('unary %s' % op, n, self)

    def num(self, v):
        if z3.is_expr(v) and z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def add(self, s, v, d, t, n):
        if isinstance(v, BufPtr):
            r = BufPtr(v.buf, simp(v.off + d), v.null)
            self.require(s, z3.And(r.off >= 0, r.off <= v.buf.n + 1), 'pointer arithmetic stays inside the buffer', n)
            return r
        if isinstance(v, IterVal):
            ni = simp(v.idx + d)
            self.require(s, z3.And(ni >= 0, ni <= self.clen(s, v.lv)), 'iterator stays inside the container', n)
            return IterVal(v.lv, ni)
        if isinstance(v, LocPtr):
            return LocPtr(v.lv, (v.idx if not isinstance(v.idx, str) else 0) + d)
        if isinstance(v, SymPtr):
            h = self.externs.get('#symadd')
            if h: return h(self, s, v, d, n)
            raise Unsupported('arithmetic on heap pointer', n, self)
        return self.arith(s, simp(self.num(v) + self.num(d)), t, n)

    def e_BinaryOperator(self, n, st):
        op = n['opcode']
        a, b = self.kids(n)
        if op in ('&&', '||'):
            return self.shortcut(n, st, op, a, b)
        if op == '=':
            def f(s, vs):
                lv = vs[0]
                v = self.rd(s, vs[1], n, qt(b))
                if isinstance(v, (Loc, HLoc)): v = self.snapshot(s, v, qt(b))
                v = self.coerce(s, v, qt(a), n)
                self.wr(s, lv, v, n, qt(a))
                return [(s, lv)]
            # right operand is sequenced before left
            return self.evs([b, a], st, lambda s, vs: f(s, [vs[1], vs[0]]))
        if op == ',':
            return self.evs([a, b], st, lambda s, vs: [(s, vs[1])])
        def g(s, vs):
            x = self.rd(s, vs[0], n, qt(a))
            y = self.rd(s, vs[1], n, qt(b))
            return [(s, self.binop(s, op, x, y, n, qt(n), qt(a)))]
        return self.evs([a, b], st, g)

    def e_CompoundAssignOperator(self, n, st):
        op = n['opcode'][:-1]
        a, b = self.kids(n)
        def f(s, vs):
            y, lv = vs
            y = self.rd(s, y, n, qt(b))
            x = self.rd(s, lv, n, qt(a))
            ct = n.get('computeResultType', {}).get('desugaredQualType') or n.get('computeResultType', {}).get('qualType') or qt(a)
            v = self.binop(s, op, x, y, n, ct if not is_ptr(qt(a)) else qt(a), qt(a))
            if z3.is_expr(v) and z3.is_int(v) and int_range(qt(a)):
                v = self.int_cast(s, v, qt(a), ct, n)
            if kind(qt(a)) == 'bool' and z3.is_expr(v) and z3.is_int(v): v = v != 0
            self.wr(s, lv, v, n, qt(a))
            return [(s, lv)]
        return self.evs([b, a], st, f)

    def shortcut(self, n, st, op, a, b):
        out = []
        for s, x in self.cond(a, st):
            if s.flow is not None: out.append((s, None)); continue
            x = simp(x)
            if z3.is_false(x) and op == '&&' or z3.is_true(x) and op == '||':
                out.append((s, x)); continue
            g = x if op == '&&' else z3.Not(x)
            s1 = s.copy().assume(g)
            n_pc = len(s1.pc)
            if not self.feasible(s1):
                out.append((s, z3.BoolVal(op == '||'))); continue
            rs = self.cond(b, s1)
            if len(rs) == 1 and rs[0][0].flow is None and self.same_store_lazy(s, rs[0][0]):
                r, y = rs[0]
                s2 = s.copy()
                for f in r.pc[n_pc:]:
                    s2.assume(z3.Implies(g, f))
                s2.store.update({k: v for k, v in r.store.items() if k not in s2.store})
                s2.heap = r.heap
                if op == '&&': out.append((s2, z3.And(x, y)))
                else: out.append((s2, z3.Or(x, y)))
                continue
            # fork
            skip = s.copy().assume(z3.Not(g))
            if self.feasible(skip): out.append((skip, z3.BoolVal(op == '||')))
            out += rs
        return out

    def same_store_lazy(self, a, b):
        """b differs from a only by lazily materialised inputs"""
        for k, v in a.store.items():
            if k not in b.store or not self.same_val(v, b.store[k]): return False
        for k, v in a.heap.items():
            if k not in b.heap or not v.eq(b.heap[k]): return False
        if not self.same_alloc(a, b): return False
        if a.log != b.log: return False
        return b.writes == a.writes

    def e_ConditionalOperator(self, n, st):
        c, a, b = self.kids(n)
        out = []
        for s, x in self.cond(c, st):
            if s.flow is not None: out.append((s, None)); continue
            t, f = self.branch(s, x)
            if t is not None: out += self.eval(a, t)
            if f is not None: out += self.eval(b, f)
        return out

    def ptr_parts(self, v):
        pass

    def binop(self, s, op, x, y, n, t, ta=None):
        P = (BufPtr, SymPtr, Null, LocPtr, FuncRef)
        if isinstance(x, P) or isinstance(y, P):
            if op in ('==', '!='):
                e = self.ptr_eq(s, x, y, n)
                return simp(e if op == '==' else z3.Not(e))
            if isinstance(x, BufPtr) and isinstance(y, BufPtr):
                if x.buf is not y.buf and str(x.buf.name) != str(y.buf.name):
                    self.require(s, z3.BoolVal(False), 'pointers into the same buffer', n)
                    return z3.Int(fresh_name('ptrdiff'))
                if op == '-': return simp(x.off - y.off)
                return {'<': x.off < y.off, '>': x.off > y.off, '<=': x.off <= y.off, '>=': x.off >= y.off}[op]
            if op in ('-', '<', '>', '<=', '>=') and {type(x), type(y)} == {BufPtr, SymPtr}:
                return self.binop(s, op, self.as_buf(s, x, n), self.as_buf(s, y, n), n, t, ta)
            if op == '+' and isinstance(x, P): return self.add(s, x, y, t, n)
            if op == '+' and isinstance(y, P): return self.add(s, y, x, t, n)
            if op == '-' and isinstance(x, P): return self.add(s, x, simp(-y), t, n)
            raise Unsupported('pointer operation %s' % op, n, self)
        if z3.is_expr(x) and z3.is_expr(y) and z3.is_bool(x) and z3.is_bool(y) and op in ('==', '!='):
            return x == y if op == '==' else x != y
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            return Opaque('op')
        x, y = self.num(x), self.num(y)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y, '>': lambda: x > y,
                    '<=': lambda: x <= y, '>=': lambda: x >= y}[op]()
        if op == '+': return self.arith(s, simp(x + y), t, n)
        if op == '-': return self.arith(s, simp(x - y), t, n)
        if op == '*': return self.arith(s, simp(x * y), t, n)
        if op in ('/', '%'):
            self.require(s, y != 0, 'no division by zero', n)
            # C truncates towards zero
            if self.quick(s.pc, z3.And(x >= 0, y > 0), 800) == 'yes':
                return x / y if op == '/' else x % y
            q = z3.If(x >= 0, z3.If(y > 0, x / y, -(x / -y)), z3.If(y > 0, -((-x) / y), (-x) / (-y)))
            return q if op == '/' else x - q * y
        if op in ('|', '&', '^', '<<', '>>'):
            xs, ys = simp(x), simp(y)
            if z3.is_int_value(xs) and z3.is_int_value(ys):
                a, b = xs.as_long(), ys.as_long()
                return z3.IntVal({'|': a | b, '&': a & b, '^': a ^ b, '<<': a << b, '>>': a >> b}[op])
            f = z3.Function('bits_' + {'|': 'or', '&': 'and', '^': 'xor', '<<': 'shl', '>>': 'shr'}[op], z3.IntSort(), z3.IntSort(), z3.IntSort())
            r = f(x, y)
            return r
        raise Unsupported('binary %s' % op, n, self)

    def ptr_eq(self, s, x, y, n):
        def nul(v): return isinstance(v, Null) or (z3.is_expr(v) and z3.is_int_value(v) and v.as_long() == 0)
        if nul(x) and nul(y): return z3.BoolVal(True)
        if nul(x): x, y = y, x
        if nul(y):
            if isinstance(x, BufPtr): return x.null
            if isinstance(x, SymPtr): return x.term == 0
            return z3.BoolVal(False)
        if isinstance(x, BufPtr) and isinstance(y, BufPtr):
            if x.buf is y.buf or x.buf.name == y.buf.name:
                return z3.Or(z3.And(x.null, y.null), z3.And(z3.Not(x.null), z3.Not(y.null), x.off == y.off))
            return z3.And(x.null, y.null)
        if isinstance(x, SymPtr) and isinstance(y, SymPtr): return x.term == y.term
        if isinstance(x, LocPtr) and isinstance(y, LocPtr):
            if isinstance(x.lv, Loc) and isinstance(y.lv, Loc): return z3.BoolVal(x.lv == y.lv)
        if isinstance(x, LocPtr) or isinstance(y, LocPtr):
            return z3.Bool(fresh_name('ptreq'))
        return z3.Bool(fresh_name('ptreq'))

    # ---------------- calls
    def to_string(self, v):
        """value usable as std::string content"""
        if z3.is_expr(v): return v
        if isinstance(v, BufPtr):
            if hasattr(v.buf, 'term'):
                t = v.buf.term
                if z3.is_int_value(simp(v.off)) and simp(v.off).as_long() == 0:
                    return t
                return z3.SubString(t, v.off, z3.Length(t) - v.off)
        if isinstance(v, SymPtr):
            return self.cstr(v)
        raise Unsupported('not a string: %r' % (v,))

    def cstr(self, p):
        """content of the NUL terminated string a heap pointer points to"""
        return z3.Function('cstr', z3.IntSort(), z3.StringSort())(p.term)

    def heap_str(self, p):
        b = str_buf(self.cstr(p))
        b.name = 'cstr(%s)' % p.term
        return b

    def e_CallExpr(self, n, st):
        ks = self.kids(n)
        callee, args = ks[0], ks[1:]
        fn = callee
        while fn['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            fn = self.kids(fn)[0]
        if fn['kind'] == 'DeclRefExpr' and fn['referencedDecl']['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            d = fn['referencedDecl']
            return self.evs(args, st, lambda s, vs: self.call(s, d['name'], None, vs, n, d, args))
        # call through a pointer value
        def f(s, vs):
            h = self.externs.get('#callptr')
            if not h: raise Unsupported('indirect call', n, self)
            return h(self, s, vs[0], vs[1:], n)
        return self.evs([fn] + args, st, f)

    def e_CXXMemberCallExpr(self, n, st):
        ks = self.kids(n)
        me, args = ks[0], ks[1:]
        while me['kind'] in ('ParenExpr', 'ImplicitCastExpr'): me = self.kids(me)[0]
        if me['kind'] != 'MemberExpr':
            raise Unsupported('member call through %s' % me['kind'], n, self)
        base = self.kids(me)[0]
        bt = qt(base)
        nm = me.get('name', '')
        def f(s, vs):
            ob = vs[0]
            if me.get('isArrow'):
                ob = self.rd(s, ob, n, bt)
                cls = strip(pointee(bt)) if kind(bt) == 'ptr' else bt
                if not isinstance(ob, (MapIter,)):
                    ob = self.deref(s, ob, n, bt)
            else:
                cls = strip(bt)
            if s.flow: return [(s, None)]
            return self.method(s, cls, nm, ob, vs[1:], n, args, me)
        return self.evs([base] + args, st, f)

    def e_CXXOperatorCallExpr(self, n, st):
        ks = self.kids(n)
        c = ks[0]
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'): c = self.kids(c)[0]
        nm = c['referencedDecl']['name']
        args = ks[1:]
        def f(s, vs):
            k = kind(qt(args[0]))
            h = self.methods.get((k, nm))
            if h is None and k == 'record':
                h = self.methods.get((shortrec(qt(args[0])), nm))
            if h is None and len(args) > 1:
                k2 = kind(qt(args[1]))
                h = self.methods.get(('*', k2, nm))
            if h is None: h = self.methods.get(('*', nm))
            if h is None and nm == 'operator=' and k == 'record':
                # user defined or implicit assignment
                d = self.user_op(c, qt(args[0]), nm)
                if d is not None and not d.get('isImplicit'):
                    return self.inline_call(s, d, vs[0], vs[1:], n)
                src = vs[1]
                v = self.snapshot(s, src, qt(args[1])) if is_lv(src) else src
                self.wr(s, vs[0], v, n)
                return [(s, vs[0])]
            if h is None:
                d = self.user_op(c, qt(args[0]), nm)
                if d is not None:
                    return self.inline_call(s, d, vs[0], vs[1:], n)
                raise Unsupported('operator %s on %s' % (nm, qt(args[0])), n, self)
            self.note_model(k if k != 'record' else shortrec(qt(args[0])), nm)
            return h(self, s, vs[0], vs[1:], n)
        return self.evs(args, st, f)

    def user_op(self, c, t, nm):
        cls = strip(t)
        for d in self.tu.funcs.get(nm, ()):
            if astload.has_body(d) and d['_scope'] and ('::'.join(d['_scope']) == cls or d['_scope'][-1] == cls.split('::')[-1]):
                return d
        return None

    def note_model(self, cls, nm):
        self.lib_notes.add('%s::%s' % (cls, nm))

    def call(self, s, name, this, vs, n, d, argn):
        """free function call"""
        con = self.find_contract(name, None, len(vs), d.get('type', {}).get('qualType', ''))
        if con is not None:
            return self.apply(s, con, this, vs, n)
        h = self.externs.get(name)
        if h is not None:
            self.used_extern[name] = self.used_extern.get(name, 0) + 1
            vs2 = [v if is_lv(v) and argn[i].get('valueCategory') == 'lvalue' else self.rd(s, v, n, qt(argn[i]))
                   for i, v in enumerate(vs)]
            return h(self, s, this, vs2, n)
        bd = [x for x in self.tu.funcs.get(name, ()) if astload.has_body(x)
              and (x['type']['qualType'] == d.get('type', {}).get('qualType') or d.get('type', {}).get('qualType') is None)]
        bd2 = [x for x in bd if x.get('mangledName') == self.tu.by_id.get(d.get('id'), {}).get('mangledName')] or bd
        if bd2:
            return self.inline_call(s, bd2[0], None, vs, n)
        raise Unsupported('call of %s without contract or body' % name, n, self)

    def method(self, s, cls, nm, ob, vs, n, argn, me=None):
        con = self.find_contract(nm, cls, len(vs), None, argn)
        if con is not None:
            return self.apply(s, con, ob, vs, n)
        k = kind(cls)
        sh = shortrec(cls)
        for key in ((sh, nm), (k, nm)):
            h = self.methods.get(key)
            if h is not None:
                self.note_model(key[0], nm)
                vs2 = [v if is_lv(v) and argn[i].get('valueCategory') == 'lvalue' else self.rd(s, v, n, qt(argn[i]))
                       for i, v in enumerate(vs)]
                return h(self, s, ob, vs2, n)
        for d in self.tu.funcs.get(nm, ()):
            if astload.has_body(d) and d['_scope'] and d['_scope'][-1] == sh.split('<')[0] and len(astload.params(d)) >= len(vs):
                if me is not None and me.get('referencedMemberDecl') and len(self.tu.funcs[nm]) > 1:
                    ref = self.tu.by_id.get(me['referencedMemberDecl'])
                    if ref is not None and ref.get('mangledName') and d.get('mangledName') and ref['mangledName'] != d['mangledName']:
                        continue
                return self.inline_call(s, d, ob, vs, n)
        raise Unsupported('method %s::%s without contract or body' % (cls, nm), n, self)

    def inline_call(self, s, d, this, vs, n):
        q = d['_qname']
        self.inlined[q] = self.inlined.get(q, 0) + 1
        out = []
        fr = getattr(self, 'istack', ())
        if d['id'] in fr:
            raise Unsupported('recursive call of %s without contract' % q, n, self)
        self.istack = fr + (d['id'],)
        try:
            for s2 in self.call_body(s, d, this, vs, node=n):
                v = s2.val
                s2.val = None
                out.append((s2, v))
        finally:
            self.istack = fr
        return out

    def find_contract(self, name, cls, nargs, ftype=None, argn=None):
        for c in self.contracts:
            q = c.qname.split('::')
            if q[-1] != name: continue
            if cls is not None:
                if len(q) < 2 or q[-2] != shortrec(cls).split('<')[0]: continue
            elif getattr(c, 'is_method', False):
                continue
            if c.nparams is not None and nargs > c.nparams: continue
            if c.nparams is not None and nargs != c.nparams and not getattr(c, 'defaults', False): continue
            if c.types and ftype:
                inner = ftype[ftype.find('(') + 1:]
                if not all(t in inner for t in c.types): continue
            return c
        return None

    def apply(self, s, con, this, vs, n):
        """use a contract at a call site"""
        s = s.copy()
        pre = s.copy()
        args = []
        for i, v in enumerate(vs):
            args.append(v)
        args = con.bind(self, s, this, args, n) if hasattr(con, 'bind') else [self.rd(s, v, n) if is_lv(v) and not con.byref(i) else v for i, v in enumerate(args)]
        pre = s.copy()
        c = Ctx(self, pre, s, this, args, None, n)
        for lab, f in con.requires(c):
            self.require(s, f, 'precondition of %s: %s' % (con.qname.split('::')[-1], lab), n, 'pre')
        if con is self.cur_contract and hasattr(con, 'variant'):
            c0 = Ctx(self, self.fn_pre, self.fn_pre, self.fn_this, self.fn_args)
            v0, v1 = con.variant(c0), con.variant(c)
            self.require(s, z3.And(v1 >= 0, v1 < v0), 'recursion terminates', n, 'term')
        pre = s.copy()
        c.pre = pre
        outs = []
        th_states = [(s.copy(), tt) for tt in getattr(con, 'throw_types', None) or [con.throw_type]] if con.may_throw else []
        for lv in con.modifies(c):
            if isinstance(lv, tuple) and lv and lv[0] == 'heap':
                a = self.heap_arr(s, lv[1:])
                s.heap[lv[1:]] = z3.Const(fresh_name('H'), a.sort())
                s.writes = s.writes | {lv}
                continue
            old = self.rd_peek(s, lv)
            t = self.loc_types.get(lv)
            if isinstance(old, Undef) or old is None:
                nv = con.havoc(c, lv, t)
            else:
                nv = con.havoc(c, lv, t) if hasattr(con, 'havoc') else self.havoc_value(s, old, self.lvname(lv))
            self.wr(s, lv, nv, n, t)
        c.post = s
        c.ret = con.result(c)
        con.effect(c)
        for lab, f in con.ensures(c):
            s.assume(f)
        outs.append((s, c.ret))
        for th_state, tt in th_states:
            c2 = Ctx(self, pre, th_state, this, args, None, n)
            c2.thrown = tt
            for lv in con.modifies(c2):
                if isinstance(lv, tuple) and lv and lv[0] != 'heap' and is_lv(lv) and getattr(con, 'throw_havoc', False):
                    old = self.rd_peek(th_state, lv)
                    self.wr(th_state, lv, con.havoc(c2, lv, self.loc_types.get(lv)) if hasattr(con, 'havoc') else self.havoc_value(th_state, old, self.lvname(lv)), n)
            for lab, f in con.throws(c2) or ():
                th_state.assume(f)
            if self.feasible(th_state):
                th_state.flow = ('throw', tt)
                outs.append((th_state, None))
        return outs

    # ---------------- construction
    def e_CXXConstructExpr(self, n, st):
        t = qt(n)
        k = kind(t)
        args = self.kids(n)
        h = self.methods.get((k, 'ctor')) or (self.methods.get((shortrec(t), 'ctor')) if k == 'record' else None)
        if h is not None:
            return self.evs(args, st, lambda s, vs: h(self, s, t, vs, n))
        if 'scoped_lock' in t or 'unique_lock' in t or 'lock_guard' in t:
            def f(s, vs):
                self.lock_acquire(s, vs[0], n)
                return [(s, Opaque('lock', vs[0]))]
            return self.evs(args, st, f)
        if k == 'record':
            d = self.find_ctor(t, n, len(args))
            if d is not None and astload.has_body(d) and not d.get('explicitlyDefaulted') and not d.get('isImplicit'):
                def g(s, vs):
                    tmp = Loc((fresh_name('obj') + '#',))
                    s = s.copy()
                    self.default_init(s, tmp, t, n)
                    out = []
                    for s2, _ in self.inline_call(s, d, tmp, vs, n):
                        out.append((s2, LocPtr(tmp, 'ctor')))
                    return out
                return self.evs(args, st, g)
            if len(args) == 1:   # implicit copy
                def g(s, vs):
                    v = vs[0]
                    if is_lv(v): v = self.snapshot(s, v, t)
                    if isinstance(v, LocPtr) and v.idx == 'ctor': v = self.snapshot(s, v.lv, t)
                    return [(s, v)]
                return self.evs(args, st, g)
            if not args:
                return [(st, Opaque('default'))]
        if k == 'array' and not args:
            return [(st, Opaque('default'))]
        raise Unsupported('construction of %s' % t, n, self)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def find_ctor(self, t, n, nargs):
        sh = shortrec(t)
        want = n.get('ctorType', {}).get('qualType')
        c = [d for d in self.tu.funcs.get(sh, ()) if d['kind'] == 'CXXConstructorDecl' and d['_scope'] and d['_scope'][-1] == sh]
        cb = [d for d in c if astload.has_body(d)]
        ex = [d for d in cb if want and d['type']['qualType'] == want]
        if ex: return ex[0]
        if want and any(d['type']['qualType'] == want for d in c):
            return None
        return None

    def e_CXXNewExpr(self, n, st):
        t = strip(pointee(qt(n)))
        args = self.kids(n)
        def fin(s, v):
            h = self.methods.get((shortrec(t), 'new'))
            if h is not None:
                return h(self, s, t, [v], n)
            tmp = Loc((fresh_name('new ' + shortrec(t)),))
            if isinstance(v, Opaque) and v.tag == 'default' or v is None:
                self.default_init(s, tmp, t, n)
            elif isinstance(v, LocPtr) and v.idx == 'ctor':
                self.wr(s, tmp, self.snapshot(s, v.lv, t), n)
            elif isinstance(v, StructVal):
                self.wr(s, tmp, v, n)
            else:
                self.wr(s, tmp, self.rd(s, v, n), n)
            s.writes = s.writes | {tmp}
            return [(s, LocPtr(tmp))]
        if not args:
            return fin(st, None)
        return self.evlv(args[-1], st, fin)

    def e_CXXDeleteExpr(self, n, st):
        h = self.externs.get('#delete')
        if h:
            return self.ev1(self.kids(n)[0], st, lambda s, v: h(self, s, v, n))
        self.dropped.add('delete expressions (no effect on the specified state)')
        return self.ev1(self.kids(n)[0], st, lambda s, v: [(s, None)])

    def e_CXXThrowExpr(self, n, st):
        ks = self.kids(n)
        ty = '...'
        if ks:
            ty = strip(qt(ks[0]))
        self.dropped.add('text of exception messages')
        st = st.copy()
        # the operand builds the message only: its evaluation is checked for safety when supported
        if ks and self.check_messages:
            try:
                rs = self.eval(ks[0], st.copy())
            except Unsupported:
                self.dropped.add('evaluation of some exception-message operands')
        st.flow = ('throw', ty)
        return [(st, None)]

    check_messages = False

    def e_CXXNoexceptExpr(self, n, st): return [(st, z3.BoolVal(True))]

    def e_LambdaExpr(self, n, st): raise Unsupported('lambda', n, self)

    def e_SourceLocExpr(self, n, st):
        return [(st, z3.IntVal(0) if 'int' in qt(n) else self.lit(b'file'))]

    def e_PredefinedExpr(self, n, st): return [(st, self.lit(b'fn'))]


def zesc(c):
    ch = chr(c)
    if 32 <= c < 127 and ch not in '\\"':
        return ch
    return '\\u{%x}' % c

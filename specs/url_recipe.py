"""Contract for src/url_recipe.cpp: the expansion is defined by right-recursive
functions over the recipe (one equation per function, unfolded where the loop
invariants mark it), over the record's fields and over the encoded text."""
import itertools
import z3
from vcx.core import *
from vcx.lib import CHR, CHS
from . import xmlheap as X
from .xmlheap import *
from .xmlutil import GetTextNode, sym

REC = z3.String('recipe@0')
N = z3.Length(REC)
ch = lambda i: CHR(REC, i)
one = CHS
F = {k: z3.Function('part_' + k, I, I, I, St) for k in ('variable', 'pattern', 'replacement', 'mode')}
END = z3.Function('placeholder_end', I, I, I, I)
U3 = z3.Function('unfold3', I, I, I, Bo)
U1 = z3.Function('unfold1', I, Bo)
U2 = z3.Function('unfold2', St, I, Bo)
LM = z3.Function('last_match', I, St, St, St)
AM = z3.Function('attr_match', I, St, Bo)
enc1 = z3.Function('uri_encoded', I, St)
E = z3.Function('encoded_from', St, I, St)
R = z3.Function('expand_from', I, St)
RR = z3.Function('regex_replaced', St, St, I, St, I, St)
root = z3.Function('root_element', I, I)
BITOR = z3.Function('bits_or', I, I, I)
DOC = z3.Int('doc')
p, s, c = z3.Ints('p s c')
x, nm_, cur = z3.Strings('x nm cur')
C = ord


def is_ph(q): return z3.And(q < N - 1, z3.Or(ch(q) == C('%'), ch(q) == C('$')), ch(q + 1) == C('{'))


def scan(p, s, c):
    """one character of a placeholder: (next part number, which part the character belongs to)"""
    k = z3.If(c == C('\\'), z3.IntVal(0), ch(p))
    close, slash = k == C('}'), k == C('/')
    ns = z3.If(close, 5, z3.If(s == 0, z3.If(k == C('['), 1, 0), z3.If(k == C(']'), 4, z3.If(z3.And(s == 1, slash), 2, z3.If(z3.And(s == 2, slash), 3, s)))))
    own = {}
    for i, n in enumerate(('variable', 'pattern', 'replacement', 'mode')):
        own[n] = z3.And(s == i, ns == i)
    return ns, own


def name_of(v): return z3.If(z3.PrefixOf(S('md-'), v), z3.SubString(v, 3, z3.Length(v) - 3), v)


def fields():
    j = jump(root(DOC), z3.IntVal(ELEM))
    return z3.If(j == 0, z3.IntVal(0), CHILD[j])


def subst(q, K):
    """replacement text of the placeholder at q"""
    v, pa, re, mo = [F[k](q + 2, 0, 0) for k in ('variable', 'pattern', 'replacement', 'mode')]
    t = LM(fields(), name_of(v), S(''))
    fl = z3.If(z3.Contains(mo, S('i')), K['perl_i'], K['perl'])
    mf = z3.If(z3.Contains(mo, S('g')), K['all'], K['first'])
    t2 = z3.If(z3.Length(pa) > 0, RR(t, pa, fl, re, mf), t)
    return z3.If(z3.Length(v) == 0, S(''), z3.If(ch(q) == C('%'), E(t2, 0), t2))


def axioms(K):
    ns, own = scan(p, s, c)
    stop = z3.Or(p >= N, s >= 5)
    ax = [fa([p, s, c], U3(p, s, c), U3(p, s, c)), fa([p], U1(p), U1(p)), fa([x, p], U2(x, p), U2(x, p))]
    for k, f in F.items():
        ax += [fa([p, s, c], z3.Implies(stop, f(p, s, c) == S('')), f(p, s, c)),
               fa([p, s, c], z3.Implies(z3.Not(stop), f(p, s, c) == z3.If(own[k], z3.Concat(one(ch(p)), f(p + 1, ns, ch(p))), f(p + 1, ns, ch(p)))),
                  z3.MultiPattern(f(p, s, c), U3(p, s, c)))]
    ax += [fa([p, s, c], z3.Implies(stop, END(p, s, c) == p), END(p, s, c)),
           fa([p, s, c], z3.Implies(z3.Not(stop), END(p, s, c) == END(p + 1, ns, ch(p))), z3.MultiPattern(END(p, s, c), U3(p, s, c))),
           fa([x, p], z3.Implies(p >= z3.Length(x), E(x, p) == S('')), E(x, p)),
           fa([x, p], z3.Implies(z3.And(p >= 0, p < z3.Length(x)), E(x, p) == z3.Concat(enc1(CHR(x, p)), E(x, p + 1))), z3.MultiPattern(E(x, p), U2(x, p))),
           fa([p], z3.Implies(p >= N, R(p) == S('')), R(p)),
           fa([p], z3.Implies(z3.And(p >= 0, p < N), R(p) == z3.If(is_ph(p), z3.Concat(subst(p, K), R(END(p + 2, 0, 0))), z3.Concat(one(ch(p)), R(p + 1)))),
              z3.MultiPattern(R(p), U1(p))),
           fa([nm_, cur], LM(0, nm_, cur) == cur, LM(0, nm_, cur)), fa([nm_], z3.Not(AM(0, nm_)), AM(0, nm_)),
           fa([p, nm_], z3.Implies(p != 0, AM(p, nm_) == z3.Or(z3.And(cstr(ANAME[p]) == S('type'), ACHILD[p] != 0, cstr(CONT[ACHILD[p]]) == nm_), AM(ANEXT[p], nm_))),
              z3.MultiPattern(AM(p, nm_), ANAME[p])),
           fa([p, nm_, cur], z3.Implies(p != 0, LM(p, nm_, cur) == LM(NEXT[p], nm_, z3.If(
               z3.And(TYPE[p] == ELEM, cstr(NAME[p]) == S('metadata'), AM(PROPS[p], nm_)), node_text(p), cur))), z3.MultiPattern(LM(p, nm_, cur), NEXT[p])),
           fa([p], z3.Implies(z3.And(p > 0, ACHILD[p] != 0), CONT[ACHILD[p]] > 0), ACHILD[p]),
           fa([p], root(p) >= 0, root(p)), N < 2**60]
    return ax


AXTEXT = X.AXTEXT + ['the child of an attribute has content (parsed documents)',
                     'definitions of the expansion (part_*, placeholder_end, expand_from), of the field lookup (last_match, attr_match) and of the encoding (encoded_from), one equation each']
ASSUME = ['enumerators of boost::regex are non-negative int values', 'boost::regex and regex_replace are unspecified functions of pattern, flags, text and replacement (they may throw)',
          'yaz_encode_uri_component of a one-character string writes at most 3 characters and a zero byte, depending on the character alone',
          'a std::string whose c_str() is used contains no zero byte', 'xmlDocGetRootElement returns the root element or null']


class UrlRecipe(Contract):
    qname, nparams = 'metaproxy_1::xml::url_recipe_handle', 2
    cost = 9
    strong, firm = 'is the expansion up to', 'no attribute before|last match before|encoded rest of'
    def byref(self, i): return False
    def inputs(self, ex, st):
        st.assume(DOC > 0)
        return None, [SymPtr(DOC, '_xmlDoc'), REC]
    def ensures(self, c): return [('the result is the expansion of the recipe', c.ret == R(0))]
    def throws(self, c):
        return [('fails only for a bad regular expression', z3.BoolVal(getattr(c, 'thrown', c.post.flow[1]) == 'boost::regex_error'))]
    def invariants(self, L):
        out = []
        def dep(f, needs=None, after=None):
            if needs: f.needs = needs
            if after: f.after = after
            return f
        V = L._vals()
        ints = [lv for n, lv, v in V if z3.is_expr(v) and z3.is_int(v)]
        strs = [lv for n, lv, v in V if z3.is_expr(v) and z3.is_string(v)]
        nam = L.ex.lvname
        cur = lambda L, lv: L.cur.store[lv]
        ent = lambda L, lv: L.entry.store[lv]
        E0 = L.entry.store
        known = [lv for n, lv, v in L.all_vals() if z3.is_expr(v) and z3.is_string(v)]
        rec = [lv for n, lv, v in L.all_vals() if z3.is_expr(v) and v.eq(REC)]
        for i in ints:
            out.append(('%s within the recipe' % nam(i), lambda L, i=i: cur(L, i) <= N))
            for sv in strs:
                out.append(('%s is the expansion up to %s' % (nam(sv), nam(i)), dep(lambda L, i=i, sv=sv:
                            z3.And(U1(cur(L, i)), z3.Concat(cur(L, sv), R(cur(L, i))) == z3.Concat(ent(L, sv), R(ent(L, i)))), rec[:1])))
                for t in known:
                    if t in strs: continue
                    out.append(('%s is followed by the encoded rest of %s from %s' % (nam(sv), nam(t), nam(i)), dep(lambda L, i=i, sv=sv, t=t:
                                z3.And(U2(cur(L, t), cur(L, i)), z3.Concat(cur(L, sv), E(cur(L, t), cur(L, i))) == z3.Concat(ent(L, sv), E(cur(L, t), ent(L, i)))), [t, 'uri_encoded'])))
        cand3 = [i for i in ints if i in E0 and z3.is_expr(E0[i])]
        if len(cand3) <= 5:
            for a, b, d in itertools.permutations(cand3, 3):
                e0 = [z3.simplify(E0[b]), z3.simplify(E0[d])]
                if not all(z3.is_int_value(v) and v.as_long() == 0 for v in e0): continue
                t3 = lambda L, a=a, b=b, d=d: (cur(L, a), cur(L, b), cur(L, d))
                i3 = lambda L, a=a: (ent(L, a), z3.IntVal(0), z3.IntVal(0))
                out.append(('placeholder end from %s, %s, %s' % (nam(a), nam(b), nam(d)), lambda L, t3=t3, i3=i3: z3.And(U3(*t3(L)), END(*t3(L)) == END(*i3(L)))))
                for sv in strs:
                    for k in F:
                        out.append(('%s is the %s so far (%s, %s, %s)' % (nam(sv), k, nam(a), nam(b), nam(d)), dep(lambda L, t3=t3, i3=i3, sv=sv, k=k:
                                    z3.And(U3(*t3(L)), z3.Concat(cur(L, sv), F[k](*t3(L))) == z3.Concat(ent(L, sv), F[k](*i3(L)))), after='placeholder end from %s, %s, %s' % (nam(a), nam(b), nam(d)))))
        for n, lv, v in V:
            if isinstance(v, SymPtr) and strip(v.ctype).endswith('xmlNode'):
                out.append(('next element after %s is unchanged' % n, lambda L, lv=lv: jump(cur(L, lv).term, z3.IntVal(ELEM)) == jump(ent(L, lv).term, z3.IntVal(ELEM))))
                for sv in strs:
                    for t in known:
                        if t in strs: continue
                        out.append(('%s is the last match before %s (%s)' % (nam(sv), n, nam(t)), dep(lambda L, lv=lv, sv=sv, t=t:
                                    LM(cur(L, lv).term, name_of(cur(L, t)), cur(L, sv)) == LM(ent(L, lv).term, name_of(cur(L, t)), ent(L, sv)), [t])))
            if isinstance(v, SymPtr) and strip(v.ctype).endswith('xmlAttr'):
                for t in known:
                    out.append(('no attribute before %s matches (%s)' % (n, nam(t)), dep(lambda L, lv=lv, t=t:
                                AM(cur(L, lv).term, name_of(cur(L, t))) == AM(ent(L, lv).term, name_of(cur(L, t))), [t])))
        return out


def install(ex):
    X.setup(ex)
    ex.mbqi = False
    ex.ite_merge = ex.abstract_chars = True
    en = lambda n: z3.Int('enum:' + n)
    K = dict(perl=en('perl'), perl_i=BITOR(en('perl'), en('icase')), all=en('format_all'), first=en('format_first_only'))
    ex.recipe_flags = K
    ex.axioms += axioms(K)
    def rootel(ex, s, this, a, n): return [(s, SymPtr(root(a[0].term), '_xmlNode'))]
    ex.externs['xmlDocGetRootElement'] = rootel
    def encode(ex, s, this, a, n):
        dst, src = a
        if not (isinstance(dst, LocPtr) and isinstance(src, LocPtr)): raise Unsupported('yaz_encode_uri_component arguments', n, ex)
        cap = re.match(r'char\[(\d+)\]$', strip(ex.loc_types.get(dst.lv, '')))
        if not cap: raise Unsupported('size of the destination is not known', n, ex)
        c0 = ex.rd(s, src.lv.sub(0), n)
        z = s.store.get(src.lv.sub(1))
        ex.require(s, z3.And(z == 0, z3.IntVal(int(cap.group(1))) >= 4), 'source has one character and a zero byte, destination has room for its encoding', n)
        ex.wr(s, dst.lv, enc1(c0), n)
        return [(s, None)]
    ex.externs['yaz_encode_uri_component'] = encode
    def rx(ex, s, t, a, n):
        a = [ex.rd(s, v, n) if is_lv(v) else v for v in a]
        t = s.copy(); t.flow = ('throw', 'boost::regex_error')
        fl = a[1] if len(a) > 1 and z3.is_expr(a[1]) else z3.IntVal(0)
        return [(s, Opaque('regex', (ex.sval(s, a[0], n), fl))), (t, None)]
    ex.methods[('basic_regex<char>', 'ctor')] = rx
    def rr(ex, s, this, a, n):
        e = a[1] if isinstance(a[1], Opaque) else ex.rd(s, a[1], n)
        if not isinstance(e, Opaque) or e.tag != 'regex': raise Unsupported('regex_replace with %r' % (e,), n, ex)
        mf = ex.rd(s, a[3], n) if len(a) > 3 else z3.IntVal(0)
        t = s.copy(); t.flow = ('throw', 'boost::regex_error')
        return [(s, RR(ex.sval(s, a[0], n), e.data[0], e.data[1], ex.sval(s, a[2], n), mf)), (t, None)]
    ex.externs['regex_replace'] = rr


UNITS = [('src/url_recipe.cpp', [UrlRecipe(), GetTextNode()], install)]
UNITS[0][1][1].assumed = True

"""libxml2 trees as seen by the code: immutable node and attribute records in
an SMT heap, finite sibling lists, and spec functions over them."""
import z3
from vcx.core import *

I, Bo, St = z3.IntSort(), z3.BoolSort(), z3.StringSort()
A = lambda n, s: z3.Const('H.' + n, z3.ArraySort(I, s))
NEXT, CHILD, TYPE, CONT, NAME, NNS, PROPS = [A('xmlNode.' + f, I) for f in ('next', 'children', 'type', 'content', 'name', 'ns', 'properties')]
ANEXT, ACHILD, ANAME, ANS = [A('xmlAttr.' + f, I) for f in ('next', 'children', 'name', 'ns')]
HREF = A('xmlNs.href', I)
cstr = z3.Function('cstr', I, St)
rank = z3.Function('rank', I, I)        # siblings left in a list (termination of sibling walks)
arank = z3.Function('arank', I, I)
ELEM, TEXT = 1, 3
S = z3.StringVal

text_from = z3.Function('text_from', I, St)          # text of the siblings from p on
jump = z3.Function('jump', I, I, I)                  # first sibling of type t at or after p
p, t, q = z3.Ints('p t q')


def node_text(x):
    """text of a node: its own siblings if it is a text node, else its children"""
    return z3.If(z3.And(x != 0, TYPE[x] != TEXT), text_from(CHILD[x]), text_from(x))


def aval(a):
    """value of an attribute: the text of its first child"""
    return z3.If(z3.And(ACHILD[a] != 0, TYPE[ACHILD[a]] == TEXT), cstr(CONT[ACHILD[a]]), S(''))


def strz(pt, s):
    """C string pt (possibly null) equals s"""
    return z3.And(pt != 0, cstr(pt) == s)


def is_elem(x, ns, name):
    return z3.And(x != 0, TYPE[x] == ELEM, NNS[x] != 0, HREF[NNS[x]] != 0, cstr(HREF[NNS[x]]) == ns, cstr(NAME[x]) == name)


MPNS = 'http://indexdata.com/metaproxy'
def is_mp(x, name): return is_elem(x, S(MPNS), S(name) if isinstance(name, str) else name)


fa = lambda vs, b, pat: z3.ForAll(vs, b, patterns=[pat] if not isinstance(pat, list) else pat)
WF = [
    fa([p], z3.And(NEXT[p] >= 0, z3.Implies(p != 0, rank(NEXT[p]) < rank(p))), NEXT[p]),
    fa([p], rank(p) >= 0, rank(p)),
    fa([p], z3.And(ANEXT[p] >= 0, z3.Implies(p != 0, arank(ANEXT[p]) < arank(p))), ANEXT[p]),
    fa([p], arank(p) >= 0, arank(p)),
    fa([p], CHILD[p] >= 0, CHILD[p]), fa([p], PROPS[p] >= 0, PROPS[p]), fa([p], ACHILD[p] >= 0, ACHILD[p]),
    fa([p], z3.Implies(p != 0, NAME[p] > 0), NAME[p]), fa([p], z3.Implies(p != 0, ANAME[p] > 0), ANAME[p]),
    fa([p], z3.And(NNS[p] >= 0), NNS[p]), fa([p], ANS[p] >= 0, ANS[p]), fa([p], HREF[p] >= 0, HREF[p]),
    fa([p], z3.Implies(z3.And(p != 0, TYPE[p] == TEXT), CONT[p] > 0), CONT[p]), fa([p], CONT[p] >= 0, CONT[p]),
]
# recursive definitions unfold only where the code itself has looked at the next sibling
DEFS = [
    text_from(0) == S(''),
    fa([p], z3.Implies(p != 0, text_from(p) == z3.If(TYPE[p] == TEXT, z3.Concat(cstr(CONT[p]), text_from(NEXT[p])), text_from(NEXT[p]))), z3.MultiPattern(text_from(p), NEXT[p])),
    fa([p, t], z3.Implies(z3.Or(p == 0, TYPE[p] == t), jump(p, t) == p), jump(p, t)),
    fa([p, t], z3.Implies(z3.And(p != 0, TYPE[p] != t), jump(p, t) == jump(NEXT[p], t)), z3.MultiPattern(jump(p, t), NEXT[p])),
]
AXTEXT = ['XML input trees: sibling and attribute lists are finite, every node and attribute has a name, text nodes have content (libxml2 documents)',
          'definitions of text_from(p) (concatenated text of the siblings from p on) and jump(p,t) (first sibling of type t at or after p)']


def setup(ex):
    ex.axioms += WF + DEFS
    ex.heap_types = {}
    for f in ('next', 'children'): ex.heap_types[('_xmlNode', f)] = '_xmlNode *'
    ex.heap_types[('_xmlNode', 'properties')] = '_xmlAttr *'
    ex.heap_types[('_xmlNode', 'type')] = 'xmlElementType'
    ex.heap_types[('_xmlNode', 'ns')] = '_xmlNs *'
    ex.heap_types[('_xmlAttr', 'next')] = '_xmlAttr *'
    ex.heap_types[('_xmlAttr', 'children')] = '_xmlNode *'
    def pm(x):
        if strip(x.ctype).endswith('xmlNode'): return rank(x.term)
        if strip(x.ctype).endswith('xmlAttr'): return arank(x.term)
    ex.ptr_measure = pm


def node(st, name, nonnull=False, ct='_xmlNode'):
    v = z3.Int(name)
    st.assume(v > 0 if nonnull else v >= 0)
    return SymPtr(v, ct)


def siblings(L):
    """loop candidates: walking a sibling list looking for something"""
    out = []
    for n, lv, v in L._vals():
        if isinstance(v, SymPtr) and strip(v.ctype).endswith('xmlNode'):
            e = L.entry.store.get(lv)
            if not isinstance(e, SymPtr): continue
            for nm2, lv2, v2 in L.all_vals():
                if z3.is_expr(v2) and z3.is_string(v2):
                    out.append(('%s + text of the rest is constant' % nm2, lambda L, lv=lv, lv2=lv2:
                                z3.Concat(L.cur.store[lv2], text_from(L.cur.store[lv].term)) == z3.Concat(L.entry.store[lv2], text_from(L.entry.store[lv].term))))
            for ty in (ELEM, TEXT):
                out.append(('next node of type %d after %s is unchanged' % (ty, n), lambda L, lv=lv, ty=ty:
                            jump(L.cur.store[lv].term, ty) == jump(L.entry.store[lv].term, ty)))
            for nm2, lv2, v2 in L.all_vals():
                if z3.is_expr(v2) and z3.is_int(v2):
                    out.append(('next node of type %s after %s is unchanged' % (nm2, n), lambda L, lv=lv, lv2=lv2:
                                jump(L.cur.store[lv].term, L.cur.store[lv2]) == jump(L.entry.store[lv].term, L.cur.store[lv2])))
    return out

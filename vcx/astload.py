"""Loads the clang AST of a /repo translation unit (re-run on every check) and
indexes every declaration that is spelled in a /repo file."""
import json, os, re, subprocess, hashlib, tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CONFIG = '''#define VERSION "0"
#define VERSION_SHA1 "0"
#define PACKAGE "metaproxy"
#define HAVE_DLFCN_H 1
#define HAVE_GETRLIMIT 1
#define HAVE_SYS_RESOURCE_H 1
#define HAVE_UNISTD_H 1
#define MP_BUILD_STATIC 1
'''


def pkg(*names):
    try:
        return subprocess.run(['pkg-config', '--cflags', *names], text=True,
                              capture_output=True).stdout.split()
    except OSError:
        return ['-I/usr/include/libxml2']


def cflags(confdir, extra=()):
    return (['-std=c++17', '-I' + confdir, '-I' + VERIF + '/stubs',
             '-I' + REPO + '/include', '-I' + REPO + '/src']
            + pkg('yaz', 'libxml-2.0', 'libxslt', 'libexslt') + list(extra))


def write_config(d):
    os.makedirs(d, exist_ok=True)
    t = CONFIG
    tpl = '/opt/vp/cmake/config.hpp.in'
    open(os.path.join(d, 'config.hpp'), 'w').write(t)
    return d


class ExtractError(Exception):
    pass


class TU:
    """One translation unit: decls by id, functions by name/mangled name."""

    def __init__(self, src, workdir, text=None, extra=()):
        self.src = src
        conf = write_config(os.path.join(workdir, 'conf'))
        path = src if src.startswith('/') else os.path.join(REPO, src)
        self.path = path
        cmd = (['clang++'] + cflags(conf, extra)
               + ['-w', '-fsyntax-only', '-ferror-limit=5', '-Xclang', '-ast-dump=json', path])
        self.cmd = ' '.join(cmd)
        p = subprocess.run(cmd, capture_output=True)
        if p.returncode != 0:
            raise ExtractError('clang cannot parse %s: %s' % (
                src, p.stderr.decode(errors='replace')[:1500]))
        self.by_id = {}
        self.parent = {}
        self.funcs = {}      # name -> [decl]
        self.records = {}    # qualified name -> CXXRecordDecl
        self.enums = {}
        self._load(p.stdout)

    # -- split the dump into top level declarations and keep those in /repo
    def _load(self, data):
        keep_prefix = (REPO + '/', VERIF + '/stubs/', VERIF + '/specs/', VERIF + '/harness/')
        roots = ['/']
        parts = data.split(b'\n    {\n')
        cur = None
        fre = re.compile(rb'\n *"file": "([^"]*)"')
        self.kept = 0
        for n, ch in enumerate(parts):
            # files printed in this chunk, skipping includedFrom objects
            first = last = None
            pos = 0
            # file of the decl's own loc: printed before "range"
            r = ch.find(b'"range": {')
            head = ch[:r if r >= 0 else 400]
            own = None
            for m in fre.finditer(b'\n' + head):
                pre = (b'\n' + head)[max(0, m.start() - 30):m.start()]
                if b'includedFrom": {' in pre:
                    continue
                own = m.group(1)
            if own is not None:
                cur = own
            mine = cur
            # carry: last file printed in chunk
            p = len(ch)
            while True:
                p = ch.rfind(b'"file": "', 0, p)
                if p < 0:
                    break
                pre = ch[max(0, p - 60):p]
                if b'includedFrom": {' in pre:
                    continue
                e = ch.find(b'"', p + 9)
                cur = ch[p + 9:e]
                break
            if n == 0 or mine is None:
                continue
            f = mine.decode(errors='replace')
            if not f.startswith(keep_prefix):
                continue
            txt = b'{\n' + ch
            # strip trailing separators / end of file
            txt = txt.rstrip()
            if n == len(parts) - 1:
                # drop the "\n  ]\n}" tail
                i = txt.rfind(b'\n    }')
                txt = txt[:i + 6]
            if txt.endswith(b','):
                txt = txt[:-1]
            try:
                d = json.loads(txt)
            except ValueError as ex:
                raise ExtractError('cannot read AST of %s: %s' % (self.src, ex))
            self.kept += 1
            self._index(d, None, (), f)

    def _index(self, d, parent, scope, file):
        k = d.get('kind')
        if 'id' in d:
            self.by_id[d['id']] = d
        if k in ('NamespaceDecl', 'CXXRecordDecl', 'LinkageSpecDecl',
                 'RecordDecl', 'ClassTemplateDecl', 'ClassTemplateSpecializationDecl'):
            nm = d.get('name', '')
            if k == 'CXXRecordDecl' and parent is not None and parent.get('kind') == 'ClassTemplateDecl':
                nm += '<pattern>'      # the uninstantiated template: never verified itself
            if k == 'ClassTemplateDecl': nm = ''
            sc = scope + ((nm,) if nm else ())
            pid = d.get('parentDeclContextId')
            if pid and pid in self.by_id and '_scope' in self.by_id[pid]:
                sc = self.by_id[pid]['_scope'] + ((nm,) if nm else ())
            d['_scope'] = sc
            if k in ('CXXRecordDecl', 'RecordDecl', 'ClassTemplateSpecializationDecl') and d.get('completeDefinition'):
                self.records['::'.join(sc)] = d
            for c in d.get('inner', ()):
                if isinstance(c, dict) and 'kind' in c:
                    self._index(c, d, sc, file)
        elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl',
                   'CXXDestructorDecl', 'CXXConversionDecl', 'FunctionTemplateDecl'):
            if k == 'FunctionTemplateDecl':
                for c in d.get('inner', ()):
                    if isinstance(c, dict) and c.get('kind') in ('FunctionDecl', 'CXXMethodDecl'):
                        self._index(c, d, scope, file)
                return
            sc = scope
            pid = d.get('parentDeclContextId')
            if pid and pid in self.by_id and '_scope' in self.by_id[pid]:
                sc = self.by_id[pid]['_scope']
            d['_scope'] = sc
            d['_file'] = file
            d['_qname'] = '::'.join(sc + (d.get('name', '?'),))
            if not any('<pattern>' in x for x in sc):
                self.funcs.setdefault(d.get('name'), []).append(d)
            for c in d.get('inner', ()):
                if isinstance(c, dict) and c.get('kind') == 'ParmVarDecl':
                    self.by_id[c['id']] = c
        elif k == 'EnumDecl':
            v = -1
            for c in d.get('inner', ()):
                if c.get('kind') == 'EnumConstantDecl':
                    self.by_id[c['id']] = c
                    v += 1
                    iv = const_value(c)
                    if iv is not None:
                        v = iv
                    c['_value'] = v
        elif k in ('TypedefDecl', 'TypeAliasDecl'):
            pass
        elif k == 'VarDecl':
            d['_scope'] = scope
            d['_qname'] = '::'.join(scope + (d.get('name', '?'),))
        else:
            pass

    # -- lookups
    def bodies(self, name=None, qname=None):
        out = []
        cands = self.funcs.get(name or qname.split('::')[-1], [])
        for d in cands:
            if qname and d['_qname'] != qname:
                continue
            if has_body(d):
                out.append(d)
        return out

    def find(self, qname, nparams=None, types=None):
        out = []
        for d in self.bodies(qname=qname):
            ps = params(d)
            if nparams is not None and len(ps) != nparams:
                continue
            if types is not None and not all(
                    t in ptype(p) for t, p in zip(types, ps)):
                continue
            out.append(d)
        return out


def const_value(c):
    for x in c.get('inner', ()):
        if x.get('kind') == 'ConstantExpr' and 'value' in x:
            return int(x['value'])
        if x.get('kind') in ('ImplicitCastExpr',):
            v = const_value(x)
            if v is not None:
                return v
        if x.get('kind') == 'IntegerLiteral':
            return int(x['value'])
    return None


def has_body(d):
    return any(isinstance(c, dict) and c.get('kind') in ('CompoundStmt', 'CXXTryStmt')
               for c in d.get('inner', ()))


def body(d):
    for c in d['inner']:
        if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
            return c


def params(d):
    return [c for c in d.get('inner', ()) if isinstance(c, dict)
            and c.get('kind') == 'ParmVarDecl']


def ptype(p):
    return p['type'].get('desugaredQualType', p['type']['qualType'])

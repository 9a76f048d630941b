"""Loads the clang AST (JSON) of /repo's current sources.

One translation unit made of every project source file is parsed by clang on
every run; std headers come from a precompiled header built on the same run, so
that only the project's own declarations are dumped.
"""
import glob, json, os, re, subprocess, sys

PCH = """#define _USE_MATH_DEFINES
#include <vector>
#include <map>
#include <set>
#include <list>
#include <queue>
#include <deque>
#include <array>
#include <tuple>
#include <utility>
#include <numeric>
#include <iterator>
#include <memory>
#include <limits>
#include <stdexcept>
#include <unordered_map>
#include <unordered_set>
#include <string>
#include <cstring>
#include <sstream>
#include <fstream>
#include <iostream>
#include <ostream>
#include <istream>
#include <iomanip>
#include <regex>
#include <random>
#include <algorithm>
#include <cmath>
#include <math.h>
#include <climits>
#include <float.h>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstddef>
#include <ctime>
#include <chrono>
#include <functional>
#include <cstdlib>
"""

class ExtractError(Exception):
    pass

def repo_sources(repo):
    src = sorted(glob.glob(repo + '/delynoi/src/**/*.cpp', recursive=True)) + \
          sorted(glob.glob(repo + '/lib/utilities/src/**/*.cpp', recursive=True))
    src = [s for s in src if '/clipper/lib/' not in s and '/lib/clipper' not in s
           and not s.endswith('/clipper.cpp') and not s.endswith('/FunctorClasses.cpp')]
    src.sort(key=lambda s: (0 if '/lib/utilities/' in s else 1, s))
    return src

EXTRA = """
#include <utilities/utilities.h>
#include <utilities/UniqueList.h>
#include <utilities/maputils.h>
"""
INST = """
template class UniqueList<Point>;
template class UniqueList<int>;
template class UniqueList<double>;
template class Mesh<Polygon>;
template class Mesh<Triangle>;
"""

def dump_ast(repo, work):
    os.makedirs(work, exist_ok=True)
    with open(work + '/pch.h', 'w') as f:
        f.write(PCH)
    inc = ['-I' + repo + '/delynoi/include', '-I' + repo + '/lib/utilities/include']
    subprocess.run(['clang++', '-std=gnu++11', '-x', 'c++-header', work + '/pch.h', '-o', work + '/pch.h.pch'],
                   check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    with open(work + '/u.cpp', 'w') as f:
        first = True
        for s in repo_sources(repo):
            f.write('#include "%s"\n' % s)
            if first:
                f.write(EXTRA); first = False
        f.write('#include <delynoi/models/basic/Angle.h>\n#include <delynoi/models/Mesh.h>\n')
        f.write('#include <delynoi/voronoi/structures/DelaunayInfo.h>\n')
        f.write(INST)
    with open(work + '/u.json', 'w') as out:
        r = subprocess.run(['clang++', '-std=gnu++11'] + inc + ['-w', '-include-pch', work + '/pch.h.pch',
                            '-fsyntax-only', '-Xclang', '-ast-dump=json', work + '/u.cpp'],
                           stdout=out, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise ExtractError('clang cannot parse the combined sources: ' + r.stderr[:800])
    with open(work + '/u.json') as f:
        return json.load(f)

# ---------------------------------------------------------------- types

def split_args(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '<([': depth += 1
        if ch in '>)]': depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'short',
        'unsigned short', 'size_t', 'std::size_t', 'ptrdiff_t', 'std::ptrdiff_t', 'unsigned char',
        'signed char', 'difference_type', 'size_type', 'uint32_t', 'int32_t', 'int64_t', 'uint64_t', 'std::streamsize',
        'unsigned', 'cInt', 'ClipperLib::cInt'}

ALIASES = {}      # type aliases of the library's own declarations

def parse_type(q):
    """C++ type text -> internal type; references and top-level const dropped."""
    q = q.strip()
    q = re.sub(r'\b(struct|class|enum|typename)\s+', '', q)
    while True:
        q0 = q
        q = q.strip()
        if q.endswith('&'): q = q[:-1]
        if q.endswith(' const'): q = q[:-6]
        if q.endswith('*const'): q = q[:-5]
        if q.startswith('const '): q = q[6:]
        if q.startswith('volatile '): q = q[9:]
        if q == q0: break
    if q.endswith('*'):
        return ('ptr', parse_type(q[:-1]))
    m = re.match(r'^(.*?)\s*\[\d*\]$', q)
    if m: return ('arr', parse_type(m.group(1)))
    if q in INTS: return ('int',)
    if q in ('double', 'float', 'long double', 'REAL'): return ('real',)
    if q in ('bool', '_Bool'): return ('bool',)
    if q == 'void': return ('void',)
    if q == 'char': return ('char',)
    if q in ('std::string', 'std::basic_string<char>', 'string', 'std::__cxx11::basic_string<char>', 'basic_string<char>'): return ('str',)
    if q in ('std::ofstream', 'std::basic_ofstream<char>', 'std::ostream', 'std::basic_ostream<char>',
             'std::stringstream', 'std::basic_stringstream<char>', 'std::ostringstream', 'std::basic_ostringstream<char>',
             'basic_ostream<char>','std::basic_ostream<char, std::char_traits<char>>', '__ostream_type'):
        return ('ostream',)
    if q in ('std::ifstream', 'std::basic_ifstream<char>', 'std::basic_istream<char>', 'std::istream'): return ('istream',)
    m = re.match(r'^((?:std::)?(?:__cxx11::)?(?:__detail::)?(?:__gnu_cxx::)?[\w:]+)<(.*)>$', q, re.S)
    if m:
        base, args = m.group(1), split_args(m.group(2))
        b = base.split('::')[-1]
        if b == 'vector': return ('vec', parse_type(args[0]))
        if b == 'deque': return ('vec', parse_type(args[0]))
        if b == 'initializer_list': return ('vec', parse_type(args[0]))
        if b == 'pair': return ('pair', parse_type(args[0]), parse_type(args[1]))
        if b == 'map': return ('omap', parse_type(args[0]), parse_type(args[1]))
        if b == 'unordered_map': return ('umap', parse_type(args[0]), parse_type(args[1]))
        if b == '__normal_iterator':
            if args[1].startswith('std::vector') or args[1].startswith('vector'):
                return ('iter', parse_type(args[1]))
            return ('opaque', q)
        if b in ('_Rb_tree_iterator', '_Rb_tree_const_iterator'):
            p = parse_type(args[0]);
            return ('iter', ('omap', p[1], p[2])) if p[0] == 'pair' else ('opaque', q)
        if b in ('_Node_iterator', '_Node_const_iterator'):
            p = parse_type(args[0])
            return ('iter', ('umap', p[1], p[2])) if p[0] == 'pair' else ('opaque', q)
        if b in ('_Node_iterator_base',):
            p = parse_type(args[0])
            return ('iter', ('umap', p[1], p[2])) if p[0] == 'pair' else ('opaque', q)
        if b == 'uniform_real_distribution': return ('dist', ('real',))
        if b == 'uniform_int_distribution': return ('dist', ('int',))
        if b in ('Segment', 'UniqueList', 'Mesh', 'Pair'):
            return ('cls', '%s<%s>' % (b, ', '.join(args)))
        return ('opaque', q)
    if re.match(r'^[A-Za-z_][\w:]*$', q):
        if q in ALIASES: return parse_type(ALIASES[q])
        return ('cls', q)
    return ('opaque', q)

def sanitize(n):
    n = re.sub(r'\W+', '', n.replace('::', '_').replace('<', '_').replace(' ', ''))
    return n + '_c' if n.lower() in ('constant', 'module', 'theory', 'function', 'predicate', 'clone', 'type', 'scope', 'exception', 'ref') else n

def tname(T):
    k = T[0]
    if k == 'int': return 'Int'
    if k == 'real': return 'Real'
    if k == 'bool': return 'Bool'
    if k == 'char': return 'Int'
    if k == 'str': return 'Str'
    if k in ('ostream', 'istream'): return k.capitalize()
    if k == 'cls': return sanitize(T[1])
    if k == 'vec': return 'V' + tname(T[1])
    if k == 'arr': return 'V' + tname(T[1])
    if k == 'pair': return 'P_%s_%s' % (tname(T[1]), tname(T[2]))
    if k == 'omap': return 'M_%s_%s' % (tname(T[1]), tname(T[2]))
    if k == 'umap': return 'U_%s_%s' % (tname(T[1]), tname(T[2]))
    if k == 'ptr':
        if T[1][0] in ('real', 'int'): return 'V' + tname(T[1])
        return tname(T[1])
    return 'Opaque'

class Fn:
    __slots__ = ('node', 'qual', 'cls', 'params', 'body', 'kind', 'ret', 'mangled', 'decl', 'inits', 'const', 'static', 'virtual', 'implicit')

class Cls:
    def __init__(self, name):
        self.name = name; self.fields = []; self.bases = []; self.methods = []; self.node = None

class TU:
    def __init__(self, ast):
        self.by_id = {}
        self.ctx = {}          # id -> qualified context name for records/namespaces
        self.fns = {}          # mangled -> Fn (with body)
        self.by_qual = {}      # qual -> [Fn]
        self.classes = {}
        self.enums = {}
        self.enum_names = set()
        self.decl_fn = {}      # decl id -> mangled
        self._index(ast)
        self._collect(ast, '', None, False)
        self._link()

    def _index(self, n):
        st = [n]
        while st:
            x = st.pop()
            if not isinstance(x, dict): continue
            if 'id' in x and 'kind' in x: self.by_id.setdefault(x['id'], x)
            st.extend(x.get('inner', []))

    def _collect(self, n, ctx, cls, dep):
        if not isinstance(n, dict): return
        k = n.get('kind')
        if k in ('NamespaceDecl', 'LinkageSpecDecl', 'TranslationUnitDecl'):
            c = ctx
            if k == 'NamespaceDecl' and n.get('name'):
                c = (ctx + '::' if ctx else '') + n['name']
            self.ctx[n['id']] = c
            for x in n.get('inner', []): self._collect(x, c, None, dep)
        elif k == 'ClassTemplateDecl':
            for x in n.get('inner', []):
                self._collect(x, ctx, None, x.get('kind') == 'CXXRecordDecl')
        elif k == 'FunctionTemplateDecl':
            fs = [x for x in n.get('inner', []) if x.get('kind') in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl')]
            for i, x in enumerate(fs):
                if 'mangledName' in x and not self._dependent(x):
                    self._collect(x, ctx, cls, dep)
        elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'RecordDecl'):
            if dep or k == 'ClassTemplatePartialSpecializationDecl': 
                self.ctx[n['id']] = None
                return
            nm = n.get('name')
            if not nm: return
            if k == 'ClassTemplateSpecializationDecl':
                args = [a.get('type', {}).get('desugaredQualType', a.get('type', {}).get('qualType', '?')) for a in n.get('inner', []) if a.get('kind') == 'TemplateArgument']
                nm += '<%s>' % ', '.join(args)
            full = (ctx + '::' if ctx else '') + nm
            self.ctx[n['id']] = full
            inner = n.get('inner', [])
            isdef = n.get('completeDefinition') or any(x.get('kind') == 'FieldDecl' for x in inner)
            if isdef:
                c = self.classes.get(full)
                if c is None:
                    c = self.classes[full] = Cls(full)
                    c.node = n
                    for b in n.get('bases', []):
                        c.bases.append(b['type'].get('desugaredQualType', b['type']['qualType']))
                    for x in inner:
                        if x.get('kind') == 'FieldDecl':
                            t = x['type']
                            c.fields.append((x.get('name', '_anon'), parse_type(t.get('desugaredQualType', t['qualType'])), x, t))
                    for x in inner:
                        if x.get('kind') in ('CXXMethodDecl', 'CXXConstructorDecl'): c.methods.append(x)
            for x in inner: self._collect(x, full, full, dep)
        elif k == 'TypedefDecl':
            if ctx == 'ClipperLib' and 'desugaredQualType' in n.get('type', {}) and n['type']['desugaredQualType'].startswith('std::vector'):
                for nm in (n['name'], ctx + '::' + n['name']): ALIASES[nm] = n['type']['desugaredQualType']
        elif k == 'EnumDecl':
            if n.get('name'):
                self.enum_names.add(n['name']); self.enum_names.add((ctx + '::' if ctx else '') + n['name'])
            v = 0
            for x in n.get('inner', []):
                if x.get('kind') == 'EnumConstantDecl':
                    val = None
                    for y in x.get('inner', []):
                        val = self._const(y)
                    if val is None: val = v
                    self.enums[x['id']] = int(val); v = int(val) + 1
            if n.get('name'): self.ctx[n['id']] = (ctx + '::' if ctx else '') + n['name']
        elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl'):
            if dep or 'mangledName' not in n: return
            p = n.get('parentDeclContextId')
            c = cls
            qctx = ctx
            if p and p in self.ctx and self.by_id.get(p, {}).get('kind') in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
                c = self.ctx[p]; qctx = c
            elif p and p in self.ctx: qctx = self.ctx[p]
            self.decl_fn[n['id']] = n['mangledName']
            body = [x for x in n.get('inner', []) if x.get('kind') in ('CompoundStmt', 'CXXTryStmt')]
            if k in ('CXXMethodDecl', 'CXXConstructorDecl') and c is None: return
            f = Fn()
            f.node = n; f.cls = c; f.mangled = n['mangledName']
            f.qual = (qctx + '::' if qctx else '') + n['name']
            f.params = [x for x in n.get('inner', []) if x.get('kind') == 'ParmVarDecl']
            f.inits = [x for x in n.get('inner', []) if x.get('kind') == 'CXXCtorInitializer']
            f.kind = 'ctor' if k == 'CXXConstructorDecl' else ('method' if c else 'fn')
            qt = n['type']['qualType']
            f.ret = qt[:self._ret_end(qt)].strip()
            f.const = bool(re.search(r'\)\s*const', qt))
            f.static = n.get('storageClass') == 'static' or self.by_id.get(n.get('previousDecl', ''), {}).get('storageClass') == 'static'
            f.virtual = bool(n.get('virtual'))
            f.implicit = bool(n.get('isImplicit'))
            f.body = body[0] if body else None
            if f.body is not None:
                if f.mangled not in self.fns or self.fns[f.mangled].body is None:
                    self.fns[f.mangled] = f
            else:
                self.fns.setdefault(f.mangled, f)
        elif k in ('ExportDecl',):
            for x in n.get('inner', []): self._collect(x, ctx, cls, dep)

    def _ret_end(self, qt):
        # position of the parameter list's '(' : the last top-level '(' group
        depth = 0
        for i, ch in enumerate(qt):
            if ch in '<[': depth += 1
            elif ch in '>]': depth -= 1
            elif ch == '(' and depth == 0: return i
        return len(qt)

    def _const(self, y):
        if not isinstance(y, dict): return None
        if 'value' in y: return y['value']
        for z in y.get('inner', []):
            v = self._const(z)
            if v is not None: return v
        return None

    def _dependent(self, f):
        st = [f]
        while st:
            x = st.pop()
            if not isinstance(x, dict): continue
            if x.get('kind') in ('CXXDependentScopeMemberExpr', 'UnresolvedLookupExpr', 'UnresolvedMemberExpr', 'DependentScopeDeclRefExpr', 'CXXUnresolvedConstructExpr'): return True
            if x.get('type', {}).get('qualType') == '<dependent type>': return True
            st.extend(x.get('inner', []))
        return False

    def _link(self):
        for f in self.fns.values():
            self.by_qual.setdefault(f.qual, []).append(f)

    def fn_of_decl(self, did):
        m = self.decl_fn.get(did)
        if m is None:
            n = self.by_id.get(did)
            if n is not None: m = n.get('mangledName')
        return self.fns.get(m) if m else None

    def find_fn(self, qual, sig=None, bodyless=False):
        c = [f for f in self.by_qual.get(qual, []) if (f.body is not None or f.node.get('pure') or bodyless) and not f.implicit]
        if sig is not None and len(sig) == 1 and sig[0].startswith('@'):
            c = [f for f in c if sig[0][1:] in f.mangled]
        elif sig is not None:
            want = [re.sub(r'\s+', '', s) for s in sig]
            def ok(f):
                have = [re.sub(r'\s+', '', p['type']['qualType']) for p in f.params]
                if len(have) != len(want): return False
                norm = lambda s: s.replace('const', '').replace('&', '')
                return all(norm(a) == norm(b) for a, b in zip(have, want))
            c = [f for f in c if ok(f)]
        return c

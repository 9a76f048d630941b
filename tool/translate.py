"""C++ (clang AST of /repo's current sources) -> WhyML, with contracts spliced in.

Classes become immutable records generated from their fields, locals become refs,
by-reference parameters and `this' become refs or aliases of lvalue paths.
A call of a function that has a contract uses the contract; any other project
function is inlined from its current body.
"""
import re
from decimal import Decimal
from astload import parse_type, tname, ExtractError

class Unsupported(ExtractError):
    pass

def uns(msg, node=None):
    loc = ''
    if isinstance(node, dict):
        r = node.get('range', {}).get('begin', {})
        r = r.get('expansionLoc', r)
        loc = ' (line %s, %s)' % (r.get('line', '?'), node.get('kind'))
    raise Unsupported(msg + loc)

WHYKW = set('''abstract absurd alias any as assert assume at axiom begin by check clone coinductive
constant continue diverges do done downto else end ensures epsilon exception exists export false float for
forall fun function ghost goal if import in inductive invariant label lemma let match meta module mutable not
old partial predicate private pure raises range reads rec ref requires return returns scope so then theory to
true try type use val variant while with writes result length get set empty break'''.split())

class LV:
    __slots__ = ('root', 'accs', 'typ')
    def __init__(self, root, accs, typ):
        self.root = root; self.accs = accs; self.typ = typ
    def ext(self, acc, typ):
        return LV(self.root, self.accs + [acc], typ)

class IterVal:
    """an iterator value: position `idx' (text) in container `lv' (vec, omap), or a hash-map key"""
    def __init__(self, lv, idx, var=None, ckey=None, isend=False):
        self.lv = lv; self.idx = idx; self.var = var; self.ckey = ckey; self.isend = isend

class Contract:
    def __init__(self, qual, params=(), sig=None, modifies=(), requires=(), ensures=(), throws=None,
                 loops=(), uses=(), start='', end='', opaque=False, diverges=False, prop=None, name=None,
                 inline_calls=(), note='', pre_types=(), returns_alias=None, trusted=False, budget=None, ieee=False, globals_='', own=''):
        self.globals_ = globals_.split(); self.own = own.split()
        self.ieee = ieee
        self.qual = qual; self.params = list(params); self.sig = sig; self.modifies = list(modifies)
        self.requires = list(requires); self.ensures = list(ensures); self.throws = throws
        self.loops = list(loops); self.uses = list(uses); self.start = start; self.end = end
        self.opaque = opaque; self.diverges = diverges; self.prop = prop
        self.inline_calls = set(inline_calls); self.note = note; self.trusted = trusted
        q = qual
        for a, b in (('operator==', 'op_eq'), ('operator<', 'op_lt'), ('operator-', 'op_minus'), ('operator[]', 'op_at'), ('operator()', 'op_call')):
            q = q.replace(a, b)
        self.name = name or re.sub(r'_+', '_', re.sub(r'\W+', '_', q)).strip('_').lower()
        self.budget = budget
        self.fn = None

def ids_why(n):
    n = re.sub(r'\W', '_', n)
    if n[:1].isupper(): n = 'v' + n
    if n[:1].isdigit() or n == '' : n = 'v' + n
    if n in WHYKW: n = n + '_v'
    return n

class Translator:
    def __init__(self, tu, contracts):
        self.tu = tu
        self.contracts = {}        # mangled -> Contract
        self.missing = []
        for c in contracts:
            fs = tu.find_fn(c.qual, c.sig, c.trusted)
            if len(fs) != 1:
                self.missing.append((c, 'no such function' if not fs else 'ambiguous'))
                continue
            c.fn = fs[0]
            self.contracts[fs[0].mangled] = c
        self.typemods = {}         # module name -> text  (in dependency order)
        self.type_reg = {}
        for c in tu.classes.values():
            self._reg(('cls', c.name))
            for _, t, _, _ in c.fields: self._reg(t)
        for T in [('real',), ('int',), ('cls', 'Point'), ('cls', 'IndexSegment'), ('vec', ('int',)), ('vec', ('vec', ('int',))),
                  ('cls', 'PointSegment'), ('cls', 'Triangle'), ('pair', ('cls', 'Point'), ('cls', 'Point')), ('vec', ('cls', 'ClipperLib::IntPoint'))]:
            self._reg(('vec', T))

    def _reg(self, T):
        if T[0] in ('vec', 'cls', 'pair', 'omap', 'umap'):
            self.type_reg[tname(T)] = T
        for x in T[1:]:
            if isinstance(x, tuple): self._reg(x)

    # ------------------------------------------------------------ type modules
    def cls_of(self, T):
        return self.tu.classes.get(T[1]) if T[0] == 'cls' else None

    def is_enum(self, T):
        return T[0] == 'cls' and T[1] not in self.tu.classes

    def wt(self, T):
        """WhyML type text"""
        k = T[0]
        if k in ('int', 'char'): return 'int'
        if k == 'real': return 'real'
        if k == 'xreal': return 'xreal'
        if k == 'bool': return 'bool'
        if k == 'void': return 'unit'
        if k == 'dist': self.used.add('Dist'); return 'dist_%s' % T[1][0]
        if k == 'ptr':
            if T[1][0] in ('real', 'int'): self.need(T); return 'c_' + T[1][0]
            return self.wt(T[1])
        if k == 'arr': return self.wt(('vec', T[1]))
        if k in ('vec', 'omap', 'umap'):
            self.need(T); return tname(T) + '.t'
        if k == 'pair': self.need(T); return tname(T).lower()
        if k == 'cls':
            if T[1] not in self.tu.classes:
                if T[1] in self.tu.enum_names: return 'int'
                if T[1] in ('functions::independent_variable', 'Precision::precision') or 'independent_variable' in T[1]: return 'int'
                self.need(('opaque', T[1])); return 'opaque'
            self.need(T); return tname(T).lower()
        if k == 'str': self.used.add('Text'); return 'VTok.t'
        if k == 'ostream': self.used.add('Text'); return 'ostream'
        if k == 'istream': self.used.add('Text'); return 'istream'
        self.need(T)
        return 'opaque'

    def modname(self, T):
        if T[0] in ('vec', 'omap', 'umap'): return tname(T)
        if T[0] in ('arr',): return tname(T)
        if T[0] == 'ptr': return tname(T)
        return 'T_' + tname(T)

    def need(self, T):
        if T[0] in ('arr',): T = ('vec', T[1])
        if T[0] == 'ptr':
            if T[1][0] in ('real', 'int'):
                self.carr_mod(T[1][0]); return
            T = T[1]
        if T[0] in ('int', 'real', 'xreal', 'bool', 'char', 'void'): return
        if T[0] == 'dist': self.used.add('Dist'); return
        if T[0] == 'str' or T[0] in ('ostream', 'istream'):
            self.used.add('Text'); return
        if self.is_enum(T) and T[0] == 'cls':
            if T[1] in self.tu.enum_names: return
            T = ('opaque', T[1])
        if T[0] == 'opaque':
            self.typemods.setdefault('T_Opaque', 'module T_Opaque\n  type opaque\nend\n')
            self.used.add('T_Opaque'); return
        mn = self.modname(T)
        self.used.add(mn)
        if T[0] in ('omap', 'umap'): self.used.add('N_' + mn)
        if mn in self.typemods: return
        self.typemods[mn] = None
        saved = self.used; self.used = set()
        L = []; N = []
        if T[0] == 'vec':
            e = self.wt(T[1])
            L.append('clone export MSeq with type elt = %s, axiom .' % e)
        elif T[0] == 'pair':
            nm = tname(T).lower()
            L.append('type %s = { %s_first: %s; %s_second: %s }' % (nm, nm, self.wt(T[1]), nm, self.wt(T[2])))
        elif T[0] == 'omap':
            nm = tname(T).lower()
            N.append('type %s_entry = { %s_first: %s; %s_second: %s }' % (nm, nm, self.wt(T[1]), nm, self.wt(T[2])))
            L.append('clone export MSeq with type elt = %s_entry, axiom .' % nm)
        elif T[0] == 'umap':
            nm = tname(T).lower()
            kt = self.wt(T[1]); vt = self.wt(T[2])
            canon = {'IndexSegment': 'mkedge (k.indexsegment_b_segment_int.segment_int_p1) (k.indexsegment_b_segment_int.segment_int_p2)',
                     'Key': 'mkedge (k.key_first) (k.key_second)'}.get(tname(T[1]))
            if canon is None: uns('unordered_map with key ' + str(T[1]))
            if tname(T[1]) == 'IndexSegment': self.need(('cls', 'Segment<int>'))
            self.used.add('Edge')
            N.append('let function canon_%s (k: %s) : edge = %s' % (nm, kt, canon))
            N.append('type %s_entry = { %s_first: %s; %s_second: %s }' % (nm, nm, kt, nm, vt))
            N.append('let function ekey_%s (e: %s_entry) : %s = e.%s_first' % (nm, nm, kt, nm))
            N.append('let function evalue_%s (e: %s_entry) : %s = e.%s_second' % (nm, nm, vt, nm))
            x = 'module EU%s\n  use int.Int\n' % mn[1:]
            for d in sorted(self.used | {mn, 'N_' + mn, 'Edge'}): x += '  ' + self.use_line(d) + '\n'
            x += '  clone export MSeq with type elt = %s_entry, axiom .\n' % nm
            x += '  (* every entry exactly once, in the order of the table *)\n'
            x += '  val function entries (m: %s.t) : t\n' % mn
            x += '  axiom entries_length: forall m: %s.t. length (entries m) = %s.size m\n' % (mn, mn)
            x += '  axiom entries_key: forall m: %s.t, i: int. 0 <= i < length (entries m) -> let e = get (entries m) i in let c = canon_%s e.%s_first in %s.mem m c /\\ %s.get m c = e.%s_second /\\ %s.keyof m c = e.%s_first\n' % (mn, nm, nm, mn, mn, nm, mn, nm)
            x += '  axiom entries_all: forall m: %s.t, c: edge. %s.mem m c -> exists i: int. 0 <= i < length (entries m) /\\ canon_%s (get (entries m) i).%s_first = c\n' % (mn, mn, nm, nm)
            x += '  axiom entries_once: forall m: %s.t, i j: int. 0 <= i < j < length (entries m) -> canon_%s (get (entries m) i).%s_first <> canon_%s (get (entries m) j).%s_first\nend\n' % (mn, nm, nm, nm, nm)
            N_E = x
            L.append('clone export UMap with type key = %s, type value = %s, type entry = %s_entry, function canon = canon_%s, function ekey = ekey_%s, function evalue = evalue_%s, axiom .' % (kt, vt, nm, nm, nm, nm))
        elif T[0] == 'cls':
            c = self.tu.classes[T[1]]
            nm = tname(T).lower()
            fl = []
            for b in c.bases:
                bt = ('cls', b)
                if self.empty_class(bt): continue
                fl.append('%s_b_%s: %s' % (nm, tname(bt).lower(), self.wt(bt)))
            for f, t, _, _ in c.fields:
                fl.append('%s_%s: %s' % (nm, f, self.wt(t)))
            L.append('type %s = { %s }' % (nm, '; '.join(fl)) if fl else 'type %s' % nm)
            L.append('val havoc_%s () : %s' % (nm, nm))
            for b in c.bases:
                bt = ('cls', b)
                if self.abstract(bt) and self.empty_class(bt):
                    L.append('function as_%s %s : %s' % (nm, self.wt(bt), nm))
                    L.append('predicate is_%s %s' % (nm, self.wt(bt)))
                    L.append('val up_%s (x: %s) : %s ensures { is_%s result /\\ as_%s result = x }' % (nm, nm, self.wt(bt), nm, nm))
        deps = self.used; self.used = saved
        if N:
            self.typemods['N_' + mn] = 'module N_%s\n  use int.Int\n' % mn + ''.join('  %s\n' % self.use_line(d) for d in sorted(deps)) + ''.join('  %s\n' % l for l in N) + 'end\n'
            L.insert(0, 'use N_' + mn)
        txt = 'module %s\n  use int.Int\n' % mn
        for d in sorted(deps):
            txt += '  ' + self.use_line(d) + '\n'
        txt += ''.join('  ' + l + '\n' for l in L) + 'end\n'
        del self.typemods[mn]
        self.typemods[mn] = txt
        if T[0] == 'umap': self.typemods['EU' + mn[1:]] = N_E
        if T[0] == 'omap':
            om = {'int': ('OrdInt', 'ilt', 'any_int'), 'real': ('OrdReal', 'rlt', 'any_real'), 'cls': ('OrdPoint', 'plt', 'good_pt')}.get(T[1][0])
            if om is not None and (T[1][0] != 'cls' or T[1][1] == 'Point'):
                x = 'module O%s\n  use int.Int\n' % mn
                for d in sorted(set(deps) | {mn, 'N_' + mn, om[0]} | ({'Geom'} if T[1][0] == 'cls' else set())): x += '  ' + self.use_line(d) + '\n'
                x += '  let function ekey_%s (e: %s_entry) : %s = e.%s_first\n' % (nm, nm, self.wt(T[1]), nm)
                x += ('  clone export OMap with type key = %s, type value = %s, type entry = %s_entry, type seq = %s.t, function length = %s.length, function get = %s.get, '
                      'function inserted = %s.inserted, function ekey = ekey_%s, predicate lt = %s, predicate good = %s, axiom .\nend\n') % (
                      self.wt(T[1]), self.wt(T[2]), nm, mn, mn, mn, mn, nm, om[1], om[2])
                self.typemods['O' + mn] = x

    def carr_mod(self, e):
        """arrays from malloc"""
        mn = 'C_' + e.capitalize(); V = 'V' + e.capitalize()
        self.need(('vec', (e,)))
        self.used.add(mn)
        if mn in self.typemods: return
        nm = 'c_' + e; size = 8 if e == 'real' else 4
        x = 'module %s\n  use int.Int\n  use %s as %s\n' % (mn, V, V)
        x += '  (* kind: 0 null, 1 allocated, 2 released, 3 not initialised *)\n'
        x += '  type %s = { %s_kind: int; %s_data: %s.t }\n' % (nm, nm, nm, V)
        x += '  let constant %s_null : %s = { %s_kind = 0; %s_data = %s.empty }\n' % (nm, nm, nm, nm, V)
        x += '  val %s_uninit () : %s ensures { result.%s_kind = 3 }\n' % (nm, nm, nm)
        x += '  val %s_alloc (bytes: int) : %s requires { [@expl:size of the array] 0 <= bytes } ensures { result.%s_kind = 1 /\\ %d * %s.length result.%s_data <= bytes < %d * %s.length result.%s_data + %d }\n' % (nm, nm, nm, size, V, nm, size, V, nm, size)
        x += '  val %s_free (p: %s) : %s requires { [@expl:only allocated memory is released] p.%s_kind = 0 \\/ p.%s_kind = 1 } ensures { result.%s_kind = if p.%s_kind = 0 then 0 else 2 }\n' % ((nm,) * 7)
        x += '  predicate %s_held (p: %s) = p.%s_kind = 1\nend\n' % (nm, nm, nm)
        self.typemods[mn] = x

    def empty_class(self, T):
        c = self.tu.classes.get(T[1])
        if c is None: return True
        return not c.fields and all(self.empty_class(('cls', b)) for b in c.bases)

    def abstract(self, T):
        c = self.tu.classes.get(T[1])
        return c is not None and any(m.get('pure') for m in c.methods)

    def use_line(self, m):
        if re.match(r'^(V[A-Z]|M_|U_|OM_|EU_)', m): return 'use %s as %s' % (m, m)
        if m in ('UL_Int', 'UL_Real') and 'UL_Point' in self.used: return 'use %s as %s' % (m, m)
        if m == 'Text': return 'use Text\n  use VTok as VTok'
        return 'use ' + m

    def field(self, T, f):
        nm = tname(T).lower()
        return '%s_%s' % (nm, f)

    def need_mod(self, name):
        """make sure a type module named in a spec file exists"""
        if name in ('VTok',): return
        if name in ('C_Real', 'C_Int'): return self.carr_mod(name[2:].lower())
        key = name[2:] if name.startswith('T_') else name[1:] if re.match(r'(OM_|EU_)', name) else name[2:] if name.startswith('N_') else name
        T = self.type_reg.get(key)
        if T is None:
            if name.startswith('V'):
                key2 = name[1:]
                base = {'Int': ('int',), 'Real': ('real',), 'Bool': ('bool',), 'Str': ('str',)}.get(key2) or self.type_reg.get(key2)
                if base: T = ('vec', base)
        if T is None: raise ExtractError('no type behind module ' + name)
        self.need(T)

    # ------------------------------------------------------------ function translation
    def translate(self, con):
        """returns dict(module text pieces) for the definition of con's function"""
        f = con.fn
        self.used = set()
        self.con = con
        self.cur = f
        self.names = dict.fromkeys(getattr(self, 'reserved', ()), 1)   # no C++ variable hides a name of the specifications
        self.tmp = 0
        self.effects = 0
        self.buf = []
        self.writes = []
        self.loopno = 0
        self.callee_decl = {}
        self.kmods = {}
        self.depth = 0
        self.exc = set()
        self.can_throw = False
        self.div = False
        self.dry = 0
        self.var_types = {}
        self.inlined = set()
        self.ndecl = 0
        self.stmt_stack = []
        self.ptr_assign = False
        self.cstructs = []
        self.body_stack = []
        env = {}
        sig = []
        holes = {}
        post_holes = {}
        pn = list(con.params)
        realparams = f.params
        if len(pn) != len(realparams): raise ExtractError('%s: parameter list changed' % f.qual)
        pre = []
        frame = []
        if f.kind == 'method' and not f.static:
            T = ('cls', f.cls)
            if 'self' in con.modifies:
                sig.append('(self: ref %s)' % self.wt(T))
                holes['self'] = ('!self', '(old !self)'); post_holes['self'] = ('!self', '(old !self)')
            else:
                sig.append('(self_in: %s)' % self.wt(T))
                pre.append('let self = ref self_in in')
                holes['self'] = ('!self', 'self_in'); post_holes['self'] = ('self_in', 'self_in')
                frame.append('self')
            env['this'] = LV(('ref', 'self'), [], T)
            self.names['self'] = 1
            self.declare_var('self', 'self', T, env)
        elif f.kind == 'ctor':
            self.names['self'] = 1
        for nm, p in zip(pn, realparams):
            self.names[nm] = 1
        for nm, p in zip(pn, realparams):
            qt = p['type'].get('desugaredQualType', p['type']['qualType'])
            T = parse_type(qt)
            if T[0] == 'ptr' and T[1][0] == 'char': T = ('vec', ('int',))
            if nm in con.modifies:
                sig.append('(%s: ref %s)' % (nm, self.wt(T)))
                holes[nm] = ('!' + nm, '(old !%s)' % nm); post_holes[nm] = holes[nm]
            else:
                sig.append('(%s_in: %s)' % (nm, self.wt(T)))
                pre.append('let %s = ref %s_in in' % (nm, nm))
                holes[nm] = ('!' + nm, nm + '_in'); post_holes[nm] = (nm + '_in', nm + '_in')
                if (qt.strip().endswith('&') or (T[0] == 'ptr' and T[1][0] not in ('char',))) and not qt.strip().startswith('const'): frame.append(nm)
            env[p['id']] = LV(('ref', nm), [], T)
            self.declare_var(nm, p.get('name', nm), T, env)
        for o in con.own: pre.append('let own_%s = ref false in' % o)
        self.holes = holes
        self.retT = None
        if f.kind == 'ctor':
            RT = ('cls', f.cls)
        else:
            RT = parse_type(self._ret_type(f))
        self.fn_ret = RT
        if f.kind == 'ctor':
            def go():
                self.ctor_body(f, env, None)
                return None
            lv = self.ctor_init(f, env, 'self')
            self.holes['self'] = ('!self', '!self')
            env['this'] = lv
            self.emit_raw(con.start, env)
            end = self.subst(con.end, env)
            body = self.block(f.body, env, ('tail', ('void',), lambda _: self.end_text(con, env, frame, '!self')))
        else:
            self.emit_raw(con.start, env)
            body = self.block(f.body, env, ('tail', RT, lambda v: self.end_text(con, env, frame, v)))
        lines = self.buf + [body]
        text = '\n    '.join(pre + lines)
        if self.exc:
            hs = []
            for e, t in sorted(self.exc):
                pass
        req = ''.join('    requires { %s }\n' % self.label(r, post_holes, pre=True) for r in con.requires)
        ens = ''
        ph = dict(post_holes); ph['result'] = ('result', 'result')
        if f.kind == 'ctor': ph['self'] = ('result', 'result')
        for e in con.ensures:
            ens += '    ensures { %s }\n' % self.label(e, ph)
        rs = ''
        if 'raise Throw' in text or self.can_throw:
            rs = '    raises { Throw -> %s }\n' % self.label(('throws only as specified', con.throws or 'false'), ph)
        dv = '    diverges\n' if (self.div or con.diverges) else ''
        rt = self.wt(RT)
        ps = ' '.join(sig) if sig else '()'
        d = '  let f %s : %s\n%s%s%s%s  =\n    %s\n' % (ps, rt, dv, req, ens, rs, text)
        return self.assemble(con, d)

    def assemble(self, con, d):
        for u in con.uses: self.used.add(u)
        decls = ''
        for m, (c, t) in self.callee_decl.items():
            decls += t
        return {'def': d, 'callees': decls, 'used': set(self.used), 'exc': sorted(self.exc), 'kmods': dict(self.kmods), 'calls': [c for c, _ in self.callee_decl.values()], 'inlined': sorted(self.inlined)}

    def _ret_type(self, f):
        r = f.ret
        return r

    def end_text(self, con, env, frame, v):
        """text at a normal exit: end hints, frame assertions, value"""
        out = []
        vn = v
        for w in self.cstructs:
            c = self.tu.classes['triangulateio']
            held = ['not (c_%s_held !%s.triangulateio_%s)' % (t[1][0], w, f) for f, t, _, _ in c.fields if t[0] == 'ptr']
            out.append('assert { [@expl:memory of %s is released] %s };' % (w, ' /\\ '.join(held)))
        if con.end or frame:
            if v is not None and v != '()':
                vn = self.fresh('res')
                out.append('let %s = %s in' % (vn, v))
        if con.end:
            h = dict(self.holes_env(env)); h['result'] = (vn, vn)
            out.append(self.subst_with(con.end, h))
        for nm in frame:
            if any(w[0] == nm for w in self.writes):
                out.append('assert { [@expl:%s leaves its argument %s unchanged] !%s = %s_in };' % (con.qual, nm, nm, nm))
        out.append(vn if vn is not None else '()')
        return '\n    '.join(out)

    def label(self, r, holes, pre=False):
        if isinstance(r, tuple):
            lab, t = r
            return '[@expl:%s] (%s)' % (lab, self.subst_with(t, holes))
        return self.subst_with(r, holes)

    def subst_with(self, t, holes):
        def rp(m):
            o, n = m.group(1), m.group(2)
            if n not in holes: raise ExtractError('contract names %s, which does not exist here' % n)
            return holes[n][1] if o else holes[n][0]
        return re.sub(r'\{(old )?([A-Za-z_]\w*)\}', rp, t)

    def holes_env(self, env):
        h = dict(self.holes)
        for nm, (why, T, isref) in self.scope_vars(env).items():
            if nm not in h: h[nm] = (why, why)
        return h

    def scope_vars(self, env):
        return env.get('$vars', {})

    def declare_var(self, why, cpp, T, env, isref=True):
        v = dict(env.get('$vars', {}))
        v[cpp] = ('!' + why if isref else why, T, isref)
        env['$vars'] = v

    def subst(self, t, env):
        return self.subst_with(t, self.holes_env(env)) if t else ''

    def emit_raw(self, t, env):
        if t: self.hint(t, self.holes_env(env))

    def hint(self, t, holes):
        """ghost code of a contract; a part starting with '?' only helps the provers and is dropped if it names a variable that is gone"""
        for x in (t if isinstance(t, (list, tuple)) else [t]):
            if x.startswith('?'):
                try: self.emit(self.subst_with(x[1:], holes))
                except ExtractError: pass
            else: self.emit(self.subst_with(x, holes))

    # ------------------------------------------------------------ helpers
    def fresh(self, base):
        base = ids_why(base)
        if base not in self.names:
            self.names[base] = 1
            return base
        while True:
            self.names[base] += 1
            n = '%s_%d' % (base, self.names[base])
            if n not in self.names:
                self.names[n] = 1
                return n

    def emit(self, s): self.buf.append(s)

    def bind(self, text, hint='t'):
        if re.match(r'^[a-z_]\w*$', text) or re.match(r'^\d+$', text): return text
        n = self.fresh(hint)
        self.emit('let %s = %s in' % (n, text))
        return n

    def assertion(self, expl, form):
        self.emit('assert { [@expl:%s] %s };' % (expl, form))

    def sub(self, fn):
        """run fn with a fresh buffer; returns (lines, result)"""
        b = self.buf; self.buf = []
        r = fn()
        lines = self.buf; self.buf = b
        return lines, r

    # ------------------------------------------------------------ lvalues
    def read(self, lv):
        k, r = lv.root
        t = '!' + r if k == 'ref' else r
        for a in lv.accs:
            t = self.acc_read(t, a)
        return t

    def acc_read(self, t, a):
        if a[0] == 'f': return '(%s).%s' % (t, a[1]) if not re.match(r'^!?\w+$', t) else ('%s.%s' % (t, a[1]) if t[0] != '!' else '(%s).%s' % (t, a[1]))
        if a[0] == 'i': return '(%s.get (%s) %s)' % (a[1], t, a[2])
        if a[0] == 'm': return '(%s.get (%s) %s)' % (a[1], t, a[2])
        raise AssertionError

    def upd(self, t, accs, val):
        if not accs: return val
        a = accs[0]
        if a[0] == 'f':
            return '{ (%s) with %s = %s }' % (t, a[1], self.upd(self.acc_read(t, a), accs[1:], val))
        if a[0] == 'i':
            return '(%s.set (%s) %s (%s))' % (a[1], t, a[2], self.upd(self.acc_read(t, a), accs[1:], val))
        if a[0] == 'm':
            return '(%s.put (%s) %s (%s))' % (a[1], t, a[3], self.upd(self.acc_read(t, a), accs[1:], val))

    def write(self, lv, val, node=None):
        k, r = lv.root
        if k != 'ref': 
            return  # a temporary: the effect is unobservable
        self.emit('%s := %s;' % (r, self.upd('!' + r, lv.accs, val)))
        self.note_write(lv)

    def note_write(self, lv):
        self.effects += 1
        for a in lv.accs:
            if a[0] == 'f' and a[1] in self.con.own and not self.ptr_assign:
                self.emit('assert { [@expl:only a table made by this request is written] own_%s.contents = true };' % a[1])
        pref = []
        for a in lv.accs:
            if a[0] != 'f': break
            pref.append(a[1])
        self.writes.append((lv.root[1], tuple(pref), lv))

    def stable(self, lv):
        """same path with index texts bound to names"""
        accs = []
        for a in lv.accs:
            if a[0] == 'i': accs.append(('i', a[1], self.bind(a[2], 'ix')))
            elif a[0] == 'm': accs.append(('m', a[1], self.bind(a[2], 'ck'), self.bind(a[3], 'ky')))
            else: accs.append(a)
        return LV(lv.root, accs, lv.typ)

    def typ(self, node):
        t = node.get('type', {})
        return parse_type(t.get('desugaredQualType', t.get('qualType', 'void')))

    def skip(self, node):
        """strip wrappers that change nothing"""
        while True:
            k = node['kind']
            if k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr', 'FullExpr'):
                node = node['inner'][0]; continue
            if k in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CXXConstCastExpr') and node.get('castKind') in ('NoOp',):
                node = node['inner'][0]; continue
            return node

    def base_path(self, lv, node):
        """apply a derived-to-base cast to an lvalue"""
        if lv.typ[0] in ('istream', 'ostream'): return lv
        for step in node.get('path', []):
            b = step['name']
            lv = self.to_base(lv, b)
        return lv

    def to_base(self, lv, b):
        T = lv.typ
        if T[0] == 'ptr': T = T[1]
        c = self.cls_of(T)
        for bb in c.bases:
            if bb == b or bb.split('<')[0] == b or bb.split('::')[-1] == b:
                bt = ('cls', bb)
                if self.empty_class(bt):
                    self.need(bt)
                    if self.abstract(bt): # the object seen through its abstract base
                        self.need(T)
                        return LV(('val', self.bind('(up_%s %s)' % (tname(T).lower(), self.par(self.read(lv))), 'obj')), [], bt)
                    return LV(('val', '(havoc_%s ())' % tname(bt).lower()), [], bt)
                return lv.ext(('f', '%s_b_%s' % (tname(T).lower(), tname(bt).lower())), bt)
        uns('base %s of %s' % (b, T))

    def lval(self, node, env):
        node = self.skip(node)
        k = node['kind']
        if k == 'DeclRefExpr':
            rd = node['referencedDecl']
            b = env.get(rd['id'])
            if isinstance(b, LV): return b
            if isinstance(b, IterVal): uns('iterator used as lvalue', node)
            g = self.global_lv(rd, node)
            if g is not None: return g
            uns('unknown variable %s' % rd.get('name'), node)
        if k == 'CXXThisExpr':
            return env['this']
        if k == 'MemberExpr':
            base = node['inner'][0]
            name = node['name']
            bn = self.skip(base)
            it = self.try_iter_arrow(bn, env)
            if it is not None:
                return self.iter_member(it, name, env, node)
            lv = self.lval_any(base, env)
            return self.member(lv, name, node)
        if k == 'ImplicitCastExpr' or k.endswith('CastExpr'):
            ck = node.get('castKind')
            if ck in ('UncheckedDerivedToBase', 'DerivedToBase'):
                return self.base_path(self.lval_any(node['inner'][0], env), node)
            if ck in ('LValueToRValue',):
                T = self.typ(node)
                if T[0] == 'ptr' or T[0] == 'arr': return self.lval(node['inner'][0], env)
            if ck in ('ArrayToPointerDecay', 'NullToPointer', 'BitCast'):
                return self.lval_any(node['inner'][0], env)
        if k == 'UnaryOperator' and node['opcode'] == '*':
            return self.lval_any(node['inner'][0], env)
        if k == 'UnaryOperator' and node['opcode'] == '&':
            return self.lval_any(node['inner'][0], env)
        if k == 'UnaryOperator' and node['opcode'] in ('++', '--') and not node.get('isPostfix'):
            self.incdec(node, env)
            return self.lval(node['inner'][0], env)
        if k == 'ArraySubscriptExpr':
            lv = self.lval_any(node['inner'][0], env)
            return self.index(lv, node['inner'][1], env, node)
        if k == 'CXXOperatorCallExpr':
            return self.lval_opcall(node, env)
        if k == 'CXXMemberCallExpr':
            r = self.member_call(node, env, want='lv')
            if isinstance(r, LV): return r
            return LV(('val', self.bind(r[0], 'c')), [], r[1])
        if k == 'CallExpr':
            r = self.call(node, env, want='lv')
            if isinstance(r, LV): return r
            return LV(('val', self.bind(r[0], 'c')), [], r[1])
        if k == 'BinaryOperator' and node['opcode'] == '=':
            self.rv(node, env)
            return self.lval(node['inner'][0], env)
        if k == 'CompoundAssignOperator':
            self.rv(node, env)
            return self.lval(node['inner'][0], env)
        if k == 'ConditionalOperator':
            t, T = self.rv(node, env)
            return LV(('val', self.bind(t, 'c')), [], T)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXNewExpr', 'InitListExpr', 'CXXStdInitializerListExpr', 'CXXFunctionalCastExpr'):
            t, T = self.rv(node, env)
            # a temporary object: give it an identity so that methods may modify it
            n = self.fresh('tmp')
            self.emit('let %s = ref (%s) in' % (n, t))
            return LV(('ref', n), [], T)
        t, T = self.rv(node, env)
        return LV(('val', self.bind(t, 'c')), [], T)

    def lval_any(self, node, env):
        return self.lval(node, env)

    def global_lv(self, rd, node):
        n = rd.get('name')
        if rd.get('kind') == 'VarDecl':
            decl = self.tu.by_id.get(rd['id'])
            if decl is not None:
                T = parse_type(decl['type'].get('desugaredQualType', decl['type']['qualType']))
                q = decl['type']['qualType']
                if ('const' in q or decl.get('constexpr')) and decl.get('inner'):
                    ini = [x for x in decl['inner'] if 'kind' in x]
                    if ini and T[0] in ('int', 'real', 'bool'):
                        return LV(('val', self.bind(self.rv(ini[0], {})[0], n)), [], T)
                if T[0] == 'cls' and self.empty_class(T):
                    return LV(('val', n), [], T)
        return None

    def member(self, lv, name, node):
        T = lv.typ
        if T[0] == 'ptr': T = T[1]
        if T[0] == 'pair':
            return lv.ext(('f', '%s_%s' % (tname(T).lower(), name)), T[1] if name == 'first' else T[2])
        if T[0] == 'entry':
            C = T[1]
            return lv.ext(('f', '%s_%s' % (tname(C).lower(), name)), C[1] if name == 'first' else C[2])
        c = self.cls_of(T)
        if c is None: uns('member %s of %s' % (name, T), node)
        self.need(T)
        for f, t, _, _ in c.fields:
            if f == name:
                return lv.ext(('f', '%s_%s' % (tname(T).lower(), name)), t)
        for b in c.bases:
            bc = self.tu.classes.get(b)
            if bc and self.has_field(bc, name):
                return self.member(lv.ext(('f', '%s_b_%s' % (tname(T).lower(), tname(('cls', b)).lower())), ('cls', b)), name, node)
        uns('member %s of %s' % (name, T), node)

    def has_field(self, c, name):
        return any(f == name for f, _, _, _ in c.fields) or any(self.has_field(self.tu.classes[b], name) for b in c.bases if b in self.tu.classes)

    def index(self, lv, idxnode, env, node, checked=True):
        T = lv.typ
        it, _ = self.rv(idxnode, env)
        return self.index_t(lv, it, node)

    def index_t(self, lv, it, node):
        T = lv.typ
        if T[0] == 'ptr' and T[1][0] in ('real', 'int'):
            self.need(T)
            it = self.bind(it, 'ix')
            nm = 'c_' + T[1][0]
            self.assertion('array is allocated', '(%s).%s_kind = 1' % (self.read(lv), nm))
            lv = lv.ext(('f', nm + '_data'), ('vec', T[1])); T = lv.typ
        if T[0] == 'ptr' or T[0] == 'arr': T = ('vec', T[1])
        if T[0] != 'vec': uns('subscript of %s' % (T,), node)
        self.need(T)
        it = self.bind(it, 'ix')
        mod = tname(T)
        self.assertion('index in bounds', '0 <= %s < %s.length (%s)' % (it, mod, self.read(lv)))
        return lv.ext(('i', mod, it), T[1])

    def try_iter_arrow(self, bn, env):
        """MemberExpr base that is iterator->"""
        if bn['kind'] == 'CXXOperatorCallExpr' and self.opname(bn) in ('operator->', 'operator*'):
            it = self.iter_of(bn['inner'][1], env)
            return it
        return None

    def opname(self, node):
        f = self.skip_all(node['inner'][0])
        return f.get('referencedDecl', {}).get('name', '?')

    def skip_all(self, n):
        while n['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr'):
            n = n['inner'][0]
        return n

    # ------------------------------------------------------------ iterators
    def is_iter(self, T): return T[0] == 'iter'

    def iter_of(self, node, env):
        """evaluate an expression of iterator type to an IterVal"""
        node = self.skip_all(node)
        k = node['kind']
        if k == 'DeclRefExpr':
            b = env.get(node['referencedDecl']['id'])
            if isinstance(b, IterVal): return b
            uns('iterator variable', node)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr'):
            a = [x for x in node.get('inner', []) if 'kind' in x]
            if len(a) >= 1: return self.iter_of(a[0], env)
            uns('default iterator', node)
        if k == 'CXXMemberCallExpr':
            me = self.skip(node['inner'][0])
            nm = me['name']
            lv = self.lval_any(me['inner'][0], env)
            T = lv.typ
            if T[0] == 'ptr': T = T[1]
            args = node['inner'][1:]
            if T[0] == 'vec':
                self.need(T)
                if nm in ('begin', 'cbegin'): return IterVal(lv, '0')
                if nm in ('end', 'cend'): return IterVal(lv, '(%s.length (%s))' % (tname(T), self.read(lv)))
                if nm == 'erase':
                    if len(args) == 1:
                        it = self.iter_of(args[0], env)
                        ix = self.bind(it.idx, 'ix')
                        self.assertion('erase position in range', '0 <= %s < %s.length (%s)' % (ix, tname(T), self.read(lv)))
                        self.write(lv, '(%s.erase (%s) %s)' % (tname(T), self.read(lv), ix))
                        return IterVal(lv, ix)
                if nm == 'insert' and len(args) == 2:
                    it = self.iter_of(args[0], env)
                    ix = self.bind(it.idx, 'ix')
                    v, _ = self.rv(args[1], env)
                    self.assertion('insert position in range', '0 <= %s <= %s.length (%s)' % (ix, tname(T), self.read(lv)))
                    self.write(lv, '(%s.inserted (%s) %s (%s))' % (tname(T), self.read(lv), ix, v))
                    return IterVal(lv, ix)
                if nm == 'insert' and len(args) == 3:
                    it = self.iter_of(args[0], env)
                    ix = self.bind(it.idx, 'ix')
                    s = self.range_text(args[1], args[2], env)
                    cur = self.bind(self.read(lv), 'cur')
                    m = tname(T)
                    self.write(lv, '(%s.app (%s.app (%s.sub %s 0 %s) (%s)) (%s.sub %s %s (%s.length %s)))' % (m, m, m, cur, ix, s, m, cur, ix, m, cur)
                               if it.idx != '(%s.length (%s))' % (m, self.read(lv)) else '(%s.app %s (%s))' % (m, cur, s))
                    return IterVal(lv, ix)
            if T[0] == 'omap':
                return self.omap_iter(lv, T, nm, args, env, node)
            if T[0] == 'umap':
                self.need(T)
                if nm in ('end', 'cend'): return IterVal(lv, None, isend=True)
                if nm == 'find':
                    kx, _ = self.rv(args[0], env)
                    kx = self.bind(kx, 'ky')
                    ck = self.bind('%s.canon %s' % (tname(T), kx) if False else 'canon_%s %s' % (tname(T).lower(), kx), 'ck')
                    return IterVal(lv, kx, ckey=ck)
            # a project function returning an iterator: inline
            uns('iterator from %s' % nm, node)
        if k == 'CXXOperatorCallExpr':
            op = self.opname(node)
            if op in ('operator+', 'operator-'):
                it = self.iter_of(node['inner'][1], env)
                n, _ = self.rv(node['inner'][2], env)
                return IterVal(it.lv, '(%s %s %s)' % (it.idx, op[-1], n))
            if op in ('operator++', 'operator--'):
                it = self.iter_of(node['inner'][1], env)
                post = len(node['inner']) > 2
                return self.iter_step(it, op, post, node)
            if op in ('operator+=', 'operator-='):
                it = self.iter_of(node['inner'][1], env)
                n, _ = self.rv(node['inner'][2], env)
                if it.var is None: uns('iterator step', node)
                self.emit('%s := !%s %s (%s);' % (it.var, it.var, op[8], n)); self.effects += 1
                self.writes.append((it.var, (), None))
                return it
            if op == 'operator=':
                dst = self.iter_of(node['inner'][1], env)
                src = self.iter_of(node['inner'][2], env)
                if dst.var is None or dst.lv.root != src.lv.root or dst.lv.accs != src.lv.accs: uns('iterator assignment', node)
                self.emit('%s := %s;' % (dst.var, src.idx)); self.effects += 1
                self.writes.append((dst.var, (), None))
                return dst
        if k == 'CallExpr':
            fn = self.skip_all(node['inner'][0]).get('referencedDecl', {}).get('name')
            a = node['inner'][1:]
            if fn in ('find',):
                b = self.iter_of(a[0], env); e = self.iter_of(a[1], env)
                v, VT = self.rv(a[2], env)
                return self.std_find(b, e, v, VT, node)
            if fn in ('next', 'prev'):
                it = self.iter_of(a[0], env)
                n = self.rv(a[1], env)[0] if len(a) > 1 and a[1]['kind'] != 'CXXDefaultArgExpr' else '1'
                return IterVal(it.lv, '(%s %s %s)' % (it.idx, '+' if fn == 'next' else '-', n))
            if fn in ('begin', 'end', 'cbegin', 'cend'):
                lv = self.lval_any(a[0], env)
                return IterVal(lv, '0' if 'begin' in fn else '(%s.length (%s))' % (tname(lv.typ), self.read(lv)))
            if fn == 'move': return self.iter_of(a[0], env)
            if fn in ('remove_if', 'unique', 'lower_bound', 'upper_bound', 'max_element', 'min_element', 'find_if', 'rotate'):
                uns('std::%s' % fn, node)
            uns('iterator-valued call %s' % fn, node)
        if k == 'UnaryOperator':
            it = self.iter_of(node['inner'][0], env)
            if node['opcode'] in ('++', '--'):
                return self.iter_step(it, 'operator' + node['opcode'], node.get('isPostfix'), node)
        uns('iterator expression', node)

    def iter_step(self, it, op, post, node):
        if it.var is None: 
            return IterVal(it.lv, '(%s %s 1)' % (it.idx, '+' if op.endswith('++') else '-'))
        old = self.bind('!' + it.var, 'it') if post else None
        T = it.lv.typ if it.lv.typ[0] != 'ptr' else it.lv.typ[1]
        if op.endswith('--'):
            self.assertion('iterator decremented inside its range', '0 < !%s' % it.var)
        else:
            self.assertion('iterator advanced inside its range', '!%s < %s.length (%s)' % (it.var, tname(T), self.read(it.lv)))
        self.emit('%s := !%s %s 1;' % (it.var, it.var, op[-1]))
        self.effects += 1
        self.writes.append((it.var, (), None))
        return IterVal(it.lv, old, None) if post else it

    def std_find(self, b, e, v, VT, node):
        T = b.lv.typ
        if T[0] == 'ptr': T = T[1]
        if T[0] != 'vec': uns('std::find on %s' % (T,), node)
        E = T[1]
        m = tname(T)
        eq = self.eq_logic(E, 'VAR_x', 'VAR_y', node)
        seq = self.bind(self.read(b.lv), 'sq')
        lo = self.bind(b.idx, 'lo'); hi = self.bind(e.idx, 'hi'); v = self.bind(v, 'el')
        self.assertion('valid iterator range', '%s <= %s' % (lo, hi))
        r = self.fresh('fi')
        at = lambda i: eq.replace('VAR_x', '(%s.get %s %s)' % (m, seq, i)).replace('VAR_y', v)
        self.emit('let %s = any int ensures { %s <= result <= %s /\\ (forall i: int. %s <= i < result -> not (%s)) /\\ (result < %s -> %s) } in'
                  % (r, lo, hi, lo, at('i'), hi, at('result')) if False else
                  'let %s = havoc_int () in assume { %s <= %s <= %s /\\ (forall i: int. %s <= i < %s -> not (%s)) /\\ (%s < %s -> %s) };'
                  % (r, lo, r, hi, lo, r, at('i'), r, hi, at(r)))
        return IterVal(b.lv, r)

    def eq_logic(self, E, x, y, node):
        if E[0] in ('int', 'real', 'bool'): return '%s = %s' % (x, y)
        if E[0] == 'cls' and E[1] == 'Point':
            self.used.add('Geom'); return 'peq %s %s' % (x, y)
        if E[0] == 'cls' and E[1] == 'IndexSegment':
            self.used.add('Geom'); return 'seg_eq %s %s' % (x, y)
        if E[0] == 'cls' and E[1] == 'PointSegment':
            self.used.add('Geom'); return 'pseg_eq %s %s' % (x, y)
        uns('equality of %s in std::find' % (E,), node)

    def lt_logic(self, E, node):
        if E[0] == 'int': return 'ilt'
        if E[0] == 'real': return 'rlt'
        if E[0] == 'cls' and E[1] == 'Point': return 'plt'
        uns('ordering of %s' % (E,), node)

    def omap_iter(self, lv, T, nm, args, env, node):
        self.need(T); self.used.add('O' + tname(T))
        m = tname(T); o = 'O' + m
        if nm in ('begin', 'cbegin'): return IterVal(lv, '0')
        if nm in ('end', 'cend'): return IterVal(lv, '(%s.length (%s))' % (m, self.read(lv)))
        if nm in ('find', 'upper_bound', 'lower_bound'):
            kx, _ = self.rv(args[0], env)
            return IterVal(lv, self.bind('%s.%s (%s) (%s)' % (o, nm, self.read(lv), kx), 'it'))
        if nm in ('insert', 'emplace_hint', 'emplace'):
            hint = None
            if nm == 'insert' and len(args) == 2 or nm == 'emplace_hint':
                self.iter_of(args[0], env); args = args[1:]
            if nm.startswith('emplace') and len(args) == 2:
                kx, _ = self.rv(args[0], env); vx, _ = self.rv(args[1], env)
                ent = '{ %s_first = %s; %s_second = %s }' % (m.lower(), kx, m.lower(), vx)
            else:
                ent = self.entry_of(args[0], env, T)
            ent = self.bind(ent, 'en')
            self.write(lv, '(%s.insert (%s) %s)' % (o, self.read(lv), ent))
            return IterVal(lv, 'BAD_ITER')
        if nm == 'erase':
            a0 = self.skip_all(args[0])
            if self.is_iter(self.typ(a0)):
                it = self.iter_of(args[0], env)
                ix = self.bind(it.idx, 'ix')
                self.assertion('erase position in range', '0 <= %s < %s.length (%s)' % (ix, m, self.read(lv)))
                self.write(lv, '(%s.erase (%s) %s)' % (m, self.read(lv), ix))
                return IterVal(lv, ix)
            kx, _ = self.rv(args[0], env)
            self.write(lv, '(%s.erase_key (%s) (%s))' % (o, self.read(lv), kx))
            return IterVal(lv, 'BAD_ITER')
        uns('std::map::%s' % nm, node)

    def entry_of(self, node, env, T):
        t, PT = self.rv(node, env)
        m = tname(T).lower()
        t = self.bind(t, 'pr')
        if PT[0] == 'pair':
            p = tname(PT).lower()
            return '{ %s_first = %s.%s_first; %s_second = %s.%s_second }' % (m, t, p, m, t, p)
        uns('map entry of type %s' % (PT,), node)

    def iter_member(self, it, name, env, node):
        T = it.lv.typ
        if T[0] == 'ptr': T = T[1]
        if T[0] == 'umap':
            if it.ckey is None: uns('dereferenced end()', node)
            self.assertion('iterator dereferenced only when the key was found', '%s.mem (%s) %s' % (tname(T), self.read(it.lv), it.ckey))
            if name == 'second': return it.lv.ext(('m', tname(T), it.ckey, it.idx), T[2])
            return LV(('val', '(%s.keyof (%s) %s)' % (tname(T), self.read(it.lv), it.ckey)), [], T[1])
        lv = self.iter_deref(it, node)
        return self.member(lv, name, node)

    def iter_deref(self, it, node):
        T = it.lv.typ
        if T[0] == 'ptr': T = T[1]
        ix = self.bind(it.idx if it.var is None else '!' + it.var, 'ix')
        self.assertion('iterator dereferenced inside its range', '0 <= %s < %s.length (%s)' % (ix, tname(T), self.read(it.lv)))
        ET = T[1] if T[0] == 'vec' else ('entry', T)
        return it.lv.ext(('i', tname(T), ix), ET)

    def range_text(self, n1, n2, env):
        b = self.iter_of(n1, env); e = self.iter_of(n2, env)
        T = b.lv.typ
        if T[0] == 'ptr': T = T[1]
        full = b.idx == '0' and e.idx == '(%s.length (%s))' % (tname(T), self.read(e.lv)) and b.lv.root == e.lv.root and b.lv.accs == e.lv.accs
        if full: return self.read(b.lv)
        return '(%s.sub (%s) (%s) (%s))' % (tname(T), self.read(b.lv), b.idx, e.idx)

    # ------------------------------------------------------------ operator-call lvalues
    def lval_opcall(self, node, env):
        op = self.opname(node)
        a = node['inner'][1:]
        if op == 'operator[]':
            lv = self.lval_any(a[0], env)
            T = lv.typ
            if T[0] == 'ptr': T = T[1]
            if T[0] == 'vec': return self.index(lv, a[1], env, node)
            if T[0] == 'umap':
                self.need(T)
                kx, _ = self.rv(a[1], env)
                kx = self.bind(kx, 'ky')
                ck = self.bind('canon_%s %s' % (tname(T).lower(), kx), 'ck')
                m = tname(T)
                dv = self.default_value(T[2])
                lines = '%s := %s;' % (lv.root[1], self.upd('!' + lv.root[1], lv.accs, '(%s.put (%s) %s (%s))' % (m, self.read(lv), kx, dv))) if lv.root[0] == 'ref' else '();'
                self.emit('(if not (%s.mem (%s) %s) then begin %s end);' % (m, self.read(lv), ck, lines.rstrip(';')))
                self.note_write(lv)
                return lv.ext(('m', m, ck, kx), T[2])
            if T[0] == 'omap':
                self.need(T); self.used.add('O' + tname(T))
                kx, _ = self.rv(a[1], env)
                kx = self.bind(kx, 'ky')
                m = tname(T); o = 'O' + m
                dv = self.default_value(T[2])
                self.write(lv, '(%s.insert (%s) { %s_first = %s; %s_second = %s })' % (o, self.read(lv), m.lower(), kx, m.lower(), dv))
                ix = self.bind('%s.find (%s) %s' % (o, self.read(lv), kx), 'it')
                return lv.ext(('i', m, ix), ('entry', T)).ext(('f', '%s_second' % m.lower()), T[2])
        if op in ('operator*', 'operator->'):
            a0T = self.typ(self.skip_all(a[0]))
            if self.is_iter(a0T):
                return self.iter_deref(self.iter_of(a[0], env), node)
        if op == 'operator=':
            self.rv(node, env)
            return self.lval(a[0], env)
        if op == 'operator<<':
            lv = self.shift_out(node, a, env, True)
            if isinstance(lv, LV): return lv
        if op == 'operator+=':
            lv = self.stable(self.lval(a[0], env))
            self.rv(node, env)
            return lv
        # user-defined operator returning a reference or a value
        fnref = self.skip_all(node['inner'][0])
        f = self.tu.fn_of_decl(fnref['referencedDecl']['id']) if 'referencedDecl' in fnref else None
        if f is not None and f.body is not None:
            r = self.invoke(f, a, env, node, 'lv', op_call=True)
            if isinstance(r, LV): return r
            return LV(('val', self.bind(r[0], 'c')), [], r[1])
        t, T = self.rv(node, env)
        return LV(('val', self.bind(t, 'c')), [], T)

    # ------------------------------------------------------------ rvalues
    def rvs(self, nodes, env):
        """evaluate several operands; protects earlier texts from later effects"""
        res = []; pos = []; eff = []
        for n in nodes:
            r = self.rv(n, env)
            res.append(r); pos.append(len(self.buf)); eff.append(self.effects)
        last = self.effects
        ins = 0
        for i in range(len(res)):
            if last > eff[i] and '!' in res[i][0]:
                n = self.fresh('v')
                self.buf.insert(pos[i] + ins, 'let %s = %s in' % (n, res[i][0]))
                ins += 1
                res[i] = (n, res[i][1])
        return res

    def real_lit(self, v):
        v = float(v)
        d = Decimal(int(v)) if v == int(v) else Decimal(repr(v))
        s = format(d, 'f')
        if '.' not in s: s += '.0'
        if s.startswith('-'): return '(-. %s)' % s[1:] if False else '(rneg %s)' % s[1:]
        return s

    def rv(self, node, env):
        """value of an expression -> (text, type)"""
        node = self.skip(node)
        k = node['kind']
        m = getattr(self, 'x_' + k, None)
        if m is None: uns('expression not supported', node)
        return m(node, env)

    def x_IntegerLiteral(self, n, env):
        v = int(n['value'])
        return (str(v) if v >= 0 else '(%d)' % v, self.typ(n))

    def x_FloatingLiteral(self, n, env):
        v = float(n['value'])
        if abs(v - 3.141592653589793) < 1e-15: return ('rpi', ('real',))
        return (self.real_lit(v), ('real',))

    def x_CXXBoolLiteralExpr(self, n, env):
        return ('true' if n['value'] else 'false', ('bool',))

    def x_StringLiteral(self, n, env):
        self.used.add('Text')
        return (self.str_lit(n['value']), ('str',))

    def str_lit(self, v):
        import json
        try: s = json.loads(v)
        except Exception: uns('string literal')
        t = 'VTok.empty'
        for ch in s: t = '(VTok.snoc %s (Ch %d))' % (t, ord(ch))
        return t

    def x_CharacterLiteral(self, n, env): return (str(n['value']), ('char',))

    def x_CXXNullPtrLiteralExpr(self, n, env): uns('null pointer', n)
    def x_GNUNullExpr(self, n, env): uns('null pointer', n)

    def x_CXXDefaultArgExpr(self, n, env):
        if n.get('inner'): return self.rv(n['inner'][0], env)
        uns('default argument', n)

    def x_CXXDefaultInitExpr(self, n, env):
        if n.get('inner'): return self.rv(n['inner'][0], env)
        uns('default initialiser', n)

    def x_ImplicitValueInitExpr(self, n, env):
        T = self.typ(n)
        return (self.zero(T), T)
    def x_CXXScalarValueInitExpr(self, n, env):
        T = self.typ(n)
        return (self.zero(T), T)

    def zero(self, T):
        if T[0] == 'int': return '0'
        if T[0] == 'real': return '0.0'
        if T[0] == 'bool': return 'false'
        return self.default_value(T)

    def x_UnaryExprOrTypeTraitExpr(self, n, env):
        t = n.get('argType', {}).get('qualType')
        if t is None and n.get('inner'): t = n['inner'][0]['type']['qualType']
        T = parse_type(t)
        sz = {'real': 8, 'int': 4, 'char': 1, 'bool': 1}.get(T[0])
        if T[0] == 'ptr': sz = 8
        if sz is None: uns('sizeof', n)
        return (str(sz), ('int',))

    def x_DeclRefExpr(self, n, env):
        rd = n['referencedDecl']
        if rd['kind'] == 'EnumConstantDecl':
            v = self.tu.enums.get(rd['id'])
            if v is None:
                if rd.get('name') in ('out', 'in', 'app', '_S_out', '_S_in'): return ('0', ('int',))
                import zlib
                return (str(zlib.crc32(str(rd.get('name')).encode()) % 1000 + 5000), ('int',))
            return (str(v), ('int',))
        lv = self.lval(n, env)
        return (self.read(lv), lv.typ)

    def x_CXXThisExpr(self, n, env):
        lv = env['this']
        return (self.read(lv), lv.typ)

    def x_MemberExpr(self, n, env):
        lv = self.lval(n, env)
        return (self.read(lv), lv.typ)

    def x_ArraySubscriptExpr(self, n, env):
        lv = self.lval(n, env)
        return (self.read(lv), lv.typ)

    def is_unsigned(self, n):
        t = n.get('type', {})
        q = t.get('desugaredQualType', t.get('qualType', ''))
        return 'unsigned' in q or q in ('std::size_t', 'size_t')

    def x_cast(self, n, env):
        ck = n.get('castKind')
        i = n['inner'][-1]
        T = self.typ(n)
        if ck == 'LValueToRValue':
            si = self.skip(i)
            if self.is_iter(T): uns('iterator value', n)
            lv = self.lval(i, env)
            return (self.read(lv), lv.typ if lv.typ[0] not in ('entry',) else lv.typ)
        if ck in ('NoOp', 'UserDefinedConversion', 'ConstructorConversion', 'FunctionToPointerDecay', 'BitCast', 'ToUnion', 'Dependent'):
            if ck == 'BitCast':
                c = self.skip_all(i)
                if c['kind'] == 'CallExpr' and self.callee_name(c) in ('malloc', 'calloc'):
                    elt = T[1]
                    b = self.rv(c['inner'][1], env)[0]
                    if self.callee_name(c) == 'calloc': b = '(%s * %s)' % (b, self.rv(c['inner'][2], env)[0])
                    if elt[0] not in ('real', 'int'): uns('malloc', n)
                    self.need(T)
                    return (self.bind('c_%s_alloc (%s)' % (elt[0], b), 'mem'), T)
            return self.rv(i, env)
        if ck == 'IntegralCast':
            return self.int_conv(i, T, n, env)
        if ck == 'IntegralToBoolean':
            return ('(not ((%s) = 0))' % self.rv(i, env)[0], ('bool',))
        if ck == 'FloatingToBoolean':
            return ('(not (req (%s) 0.0))' % self.rv(i, env)[0], ('bool',))
        if ck == 'IntegralToFloating':
            si = self.skip(i)
            while si['kind'] in ('ImplicitCastExpr',) and si.get('castKind') == 'IntegralCast': si = self.skip(si['inner'][0])
            neg = False
            c = self.const_int(i)
            if c is not None: return (self.real_lit(c) if c >= 0 else '(rneg %s)' % self.real_lit(-c), ('real',))
            it, IT = self.rv(i, env)
            if IT[0] == 'bool': return ('(if %s then 1.0 else 0.0)' % it, ('real',))
            return (self.bind('rofi (%s)' % it, 'fi'), ('real',))
        if ck == 'FloatingToIntegral':
            t = self.rv(i, env)[0]
            q = n['type'].get('desugaredQualType', n['type']['qualType'])
            if q == 'int': return (self.bind('r2i32 (%s)' % t, 'ti'), ('int',))
            if q in ('long', 'long long', 'ClipperLib::cInt', 'cInt'): return (self.bind('r2i64 (%s)' % t, 'ti'), ('int',))
            uns('conversion of a floating value to %s' % q, n)
        if ck == 'FloatingCast': return self.rv(i, env)
        if ck == 'BooleanToSignedIntegral': return ('(if %s then 1 else 0)' % self.rv(i, env)[0], ('int',))
        if ck == 'ToVoid':
            lines = self.rv_discard(i, env)
            return ('()', ('void',))
        if ck in ('UncheckedDerivedToBase', 'DerivedToBase'):
            lv = self.lval(n, env)
            return (self.read(lv), lv.typ)
        if ck in ('ArrayToPointerDecay',):
            if i['kind'] == 'StringLiteral' or self.skip(i)['kind'] == 'StringLiteral': return self.rv(i, env)
            lv = self.lval(i, env)
            return (self.read(lv), lv.typ)
        if ck == 'NullToPointer':
            if T[0] == 'ptr' and T[1][0] in ('real', 'int'):
                self.need(T)
                return ('c_%s_null' % T[1][0], T)
            if T[0] == 'ptr' and T[1] == ('cls', 'triangulateio'): return ('NULLIO', T)
            uns('null pointer', n)
        uns('cast %s' % ck, n)
    x_ImplicitCastExpr = x_cast
    x_CStyleCastExpr = x_cast
    x_CXXStaticCastExpr = x_cast
    x_CXXFunctionalCastExpr = x_cast
    x_CXXConstCastExpr = x_cast

    def const_int(self, n):
        n = self.skip(n)
        if n['kind'] in ('ImplicitCastExpr', 'CStyleCastExpr') and n.get('castKind') in ('IntegralCast', 'NoOp'): return self.const_int(n['inner'][0])
        if n['kind'] == 'IntegerLiteral': return int(n['value'])
        if n['kind'] == 'UnaryOperator' and n['opcode'] == '-':
            v = self.const_int(n['inner'][0]); return None if v is None else -v
        if n['kind'] == 'BinaryOperator' and n['opcode'] in ('+', '-', '*'):
            a = self.const_int(n['inner'][0]); b = self.const_int(n['inner'][1])
            if a is None or b is None: return None
            return a + b if n['opcode'] == '+' else a - b if n['opcode'] == '-' else a * b
        return None

    def int_conv(self, i, T, n, env):
        """integer-to-integer conversion"""
        si = self.skip(i)
        if self.is_unsigned(si) and not self.is_unsigned(n) and si['kind'] == 'BinaryOperator' and si['opcode'] == '-':
            # (int)(a - b) with unsigned a, b : the wrapped value converts back to a - b
            (a, _), (b, _) = self.rvs([si['inner'][0], si['inner'][1]], env)
            return ('(%s - %s)' % (a, b), ('int',))
        t, IT = self.rv(i, env)
        if IT[0] == 'bool': return ('(if %s then 1 else 0)' % t, ('int',))
        if self.is_unsigned(n) and not self.is_unsigned(si):
            c = self.const_int(si)
            if c is not None and c < 0: return (t, ('int',))
            # signed -> unsigned: only used for non-negative values (checked where it is used as an index)
            par = self.stmt_stack[-1] if self.stmt_stack else None
            if par == 'arith':
                self.assertion('non-negative value converted to unsigned', '0 <= %s' % t)
        return (t, ('int',))

    def x_UnaryOperator(self, n, env):
        op = n['opcode']
        i = n['inner'][0]
        if op in ('++', '--'): return self.incdec(n, env)
        if op == '!':
            return ('(not %s)' % self.boolv(i, env), ('bool',))
        if op == '*':
            lv = self.lval(n, env); return (self.read(lv), lv.typ)
        if op == '&':
            lv = self.lval(i, env); return (self.read(lv), ('ptr', lv.typ))
        t, T = self.finite(*self.rv(i, env))
        if op == '-':
            if T[0] == 'real': return ('(rneg %s)' % self.par(t), T)
            return ('(- %s)' % self.par(t), T)
        if op == '+': return (t, T)
        uns('operator %s' % op, n)

    def par(self, t):
        return t if re.match(r'^!?[\w.]+$', t) or (t.startswith('(') and t.endswith(')') and self.balanced(t)) else '(%s)' % t

    def balanced(self, t):
        d = 0
        for j, c in enumerate(t):
            if c == '(': d += 1
            if c == ')':
                d -= 1
                if d == 0 and j < len(t) - 1: return False
        return True

    def incdec(self, n, env):
        i = n['inner'][0]
        if self.is_iter(self.typ(self.skip_all(i))):
            it = self.iter_of(n, env)
            return ('()', ('void',))
        lv = self.stable(self.lval(i, env))
        op = n['opcode'][0]
        old = self.bind(self.read(lv), 'old_v') if n.get('isPostfix') else None
        cur = old or self.read(lv)
        if self.is_unsigned(i) and op == '-':
            self.assertion('unsigned decrement does not wrap', '0 < %s' % cur)
        if lv.typ[0] == 'real': self.write(lv, '(%s %s. 1.0)' % (cur, op))
        else: self.write(lv, '(%s %s 1)' % (cur, op))
        return (old if old else self.read(lv), lv.typ)

    def boolv(self, node, env):
        t, T = self.rv(node, env)
        if T[0] == 'int': return '(not (%s = 0))' % t
        return self.par(t)

    def x_BinaryOperator(self, n, env):
        op = n['opcode']
        a, b = n['inner']
        if op == '=': return self.assign(a, b, env, n)
        if op == ',':
            self.rv_discard(a, env)
            return self.rv(b, env)
        if op in ('&&', '||'):
            ta = self.boolv(a, env)
            lines, tb = self.sub(lambda: self.boolv(b, env))
            if not lines:
                return ('(%s %s %s)' % (ta, op, tb), ('bool',))
            blk = 'begin %s %s end' % (' '.join(lines), tb)
            if op == '&&': t = 'if %s then %s else false' % (ta, blk)
            else: t = 'if %s then true else %s' % (ta, blk)
            return (self.bind('(%s)' % t, 'b'), ('bool',))
        TA = self.typ(self.skip(a))
        if self.is_iter(TA): return self.iter_cmp('operator' + op, a, b, env, n)
        if op in ('==', '!='):
            # pointer comparisons
            if self.typ(a)[0] == 'ptr': uns('pointer comparison', n)
        self.stmt_stack.append('arith' if self.is_unsigned(n) or self.is_unsigned(a) else '-')
        (ta, TA), (tb, TB) = self.rvs([a, b], env)
        self.stmt_stack.pop()
        if TA[0] == 'xreal' or TB[0] == 'xreal':
            if op in ('<', '>', '<=', '>=', '==', '!='):
                xa = ta if TA[0] == 'xreal' else '(xof %s)' % self.par(ta)
                xb = tb if TB[0] == 'xreal' else '(xof %s)' % self.par(tb)
                if op in ('>', '>='): xa, xb = xb, xa
                t = '(%s %s %s)' % ({'<': 'xlt', '>': 'xlt', '<=': 'xle', '>=': 'xle', '==': 'xeq', '!=': 'xeq'}[op], self.par(xa), self.par(xb))
                return ('(not %s)' % t if op == '!=' else t, ('bool',))
            ta, TA = self.finite(ta, TA); tb, TB = self.finite(tb, TB)
        real = TA[0] == 'real' or TB[0] == 'real'
        if op in ('+', '-', '*'):
            if TA[0] in ('ptr', 'arr', 'vec') : uns('pointer arithmetic', n)
            if op == '-' and not real and self.is_unsigned(n):
                ta = self.bind(ta, 'u'); tb = self.bind(tb, 'u')
                self.assertion('unsigned subtraction does not wrap', '%s >= %s' % (ta, tb))
            return ('(%s %s%s %s)' % (self.par(ta), op, '.' if real else '', self.par(tb)), ('real',) if real else ('int',))
        if op == '/':
            if real and self.con.ieee == 'total': return (self.bind('rdivt %s %s' % (self.par(ta), self.par(tb)), 'q'), ('real',))
            if real and self.con.ieee: return (self.bind('xdiv %s %s' % (self.par(ta), self.par(tb)), 'q'), ('xreal',))
            if real: return (self.bind('rdiv %s %s' % (self.par(ta), self.par(tb)), 'q'), ('real',))
            return (self.bind('idiv %s %s' % (self.par(ta), self.par(tb)), 'q'), ('int',))
        if op == '%': return (self.bind('imod %s %s' % (self.par(ta), self.par(tb)), 'r'), ('int',))
        if op in ('<', '>', '<=', '>='):
            if TA[0] == 'bool' or TB[0] == 'bool': uns('ordering of booleans', n)
            return ('(%s %s%s %s)' % (self.par(ta), op, '.' if real else '', self.par(tb)), ('bool',))
        if op in ('==', '!='):
            if real: t = '(req %s %s)' % (self.par(ta), self.par(tb))
            elif TA[0] == 'bool': t = '(beq %s %s)' % (self.par(ta), self.par(tb))
            elif TA[0] in ('int', 'char') or self.is_enum(TA): t = '(%s = %s)' % (self.par(ta), self.par(tb))
            else: uns('comparison of %s' % (TA,), n)
            return (t if op == '==' else '(not %s)' % t, ('bool',))
        uns('operator %s' % op, n)

    def finite(self, t, T):
        """an IEEE quotient used as an ordinary number: obliged to be finite"""
        if T[0] == 'xreal': return (self.bind('fin %s' % self.par(t), 'fn'), ('real',))
        return (t, T)

    def makes_xreal(self, e, env):
        e = self.skip_all(e)
        if e['kind'] == 'BinaryOperator' and e['opcode'] == '/': return self.typ(e)[0] == 'real'
        if e['kind'] == 'ConditionalOperator': return self.makes_xreal(e['inner'][1], env) or self.makes_xreal(e['inner'][2], env)
        if e['kind'] == 'DeclRefExpr':
            lv = env.get(e['referencedDecl']['id'])
            return isinstance(lv, LV) and lv.typ[0] == 'xreal'
        return False

    def assigned_xreal(self, node, did, env):
        """is a quotient ever assigned to the local variable did?"""
        if not isinstance(node, dict): return False
        if node.get('kind') == 'BinaryOperator' and node.get('opcode') == '=':
            a, b = node['inner']
            a = self.skip_all(a)
            if a['kind'] == 'DeclRefExpr' and a['referencedDecl']['id'] == did and self.makes_xreal(b, env): return True
        return any(self.assigned_xreal(x, did, env) for x in node.get('inner', []))

    def iter_cmp(self, op, a, b, env, n):
        x = self.iter_of(a, env)
        xi = self.bind(x.idx, 'it') if x.var is None and x.ckey is None and not x.isend and not re.match(r'^\d+$', x.idx) else x.idx
        y = self.iter_of(b, env)
        if x.ckey is not None or y.ckey is not None or x.isend or y.isend:
            if x.ckey is None: x, y = y, x
            if not (x.ckey is not None and y.isend): uns('hash-map iterator comparison', n)
            T = x.lv.typ if x.lv.typ[0] != 'ptr' else x.lv.typ[1]
            t = '(%s.mem (%s) %s)' % (tname(T), self.read(x.lv), x.ckey)
            return ('(not %s)' % t if op == 'operator==' else t, ('bool',))
        xt = '!' + x.var if x.var else xi
        yt = '!' + y.var if y.var else y.idx
        o = op[8:]
        if o == '==': return ('(%s = %s)' % (xt, yt), ('bool',))
        if o == '!=': return ('(not (%s = %s))' % (xt, yt), ('bool',))
        if o in ('<', '>', '<=', '>='): return ('(%s %s %s)' % (xt, o, yt), ('bool',))
        if o == '-': return ('(%s - %s)' % (xt, yt), ('int',))
        uns('iterator operator %s' % op, n)

    def assign(self, a, b, env, n):
        T = self.typ(a)
        if self.skip_all(b).get('kind') in ('GNUNullExpr', 'CXXNullPtrLiteralExpr') or (self.skip(b).get('castKind') == 'NullToPointer'):
            lv = self.lval(a, env)
            t = self.rv(b, env)[0]
            self.write(lv, t)
            return (self.read(lv), lv.typ)
        v, VT = self.rv(b, env)
        if '!' in v or '(' in v: v = self.bind(v, 'nv')
        lv = self.lval(a, env)
        if VT[0] == 'xreal' and lv.typ[0] != 'xreal': v, VT = self.finite(v, VT)
        if lv.typ[0] == 'xreal' and VT[0] == 'real': v = '(xof %s)' % self.par(v)
        own = T[0] == 'ptr' and lv.accs and lv.accs[-1][0] == 'f' and lv.accs[-1][1] in self.con.own
        self.ptr_assign = bool(own)
        self.write(lv, v)
        self.ptr_assign = False
        if own: self.emit('own_%s := %s;' % (lv.accs[-1][1], 'true' if self.skip_all(b)['kind'] == 'CXXNewExpr' else 'false'))
        return (self.read(lv), lv.typ)

    def x_CompoundAssignOperator(self, n, env):
        op = n['opcode'][:-1]
        a, b = n['inner']
        v, VT = self.rv(b, env)
        v = self.bind(v, 'nv') if '!' in v or ' ' in v else v
        v, VT = self.finite(v, VT)
        lv = self.stable(self.lval(a, env))
        if lv.typ[0] == 'xreal': uns('compound assignment to a quotient', n)
        cur = self.read(lv)
        real = lv.typ[0] == 'real'
        if real and VT[0] == 'int': v = self.bind('rofi (%s)' % v, 'fi')
        if not real and VT[0] == 'real': uns('integer compound assignment with a floating operand', n)
        if op in ('+', '-', '*'): nv = '(%s %s%s %s)' % (cur, op, '.' if real else '', self.par(v))
        elif op == '/': nv = self.bind((('rdivt (%s) (%s)' if self.con.ieee == 'total' else 'rdiv (%s) (%s)') if real else 'idiv (%s) (%s)') % (cur, v), 'q')
        elif op == '%': nv = self.bind('imod (%s) (%s)' % (cur, v), 'q')
        else: uns('operator %s=' % op, n)
        self.write(lv, nv)
        return (self.read(lv), lv.typ)

    def x_ConditionalOperator(self, n, env):
        c, a, b = n['inner']
        tc = self.boolv(c, env)
        la, (ta, TA) = self.sub(lambda: self.rv(a, env))
        lb, (tb, TB) = self.sub(lambda: self.rv(b, env))
        T = TA if TA[0] != 'void' else TB
        if not la and not lb: return ('(if %s then %s else %s)' % (tc, ta, tb), T)
        t = 'if %s then begin %s %s end else begin %s %s end' % (tc, ' '.join(la), ta, ' '.join(lb), tb)
        return (self.bind('(%s)' % t, 'c'), T)

    def rv_discard(self, node, env):
        node = self.skip(node)
        k = node['kind']
        if k == 'DeclRefExpr': return
        if k in ('ImplicitCastExpr', 'CStyleCastExpr') and node.get('castKind') in ('ToVoid', 'LValueToRValue') and self.skip_all(node['inner'][0])['kind'] in ('DeclRefExpr', 'MemberExpr', 'IntegerLiteral'):
            return
        T = self.typ(node)
        if self.is_iter(T) or (k == 'UnaryOperator' and self.is_iter(self.typ(self.skip_all(node['inner'][0])))):
            if k == 'CXXMemberCallExpr':
                r = self.member_call(node, env, want='none')
                return
            self.iter_of(node, env); return
        if k == 'CXXMemberCallExpr': r = self.member_call(node, env, want='none')
        elif k == 'CallExpr': r = self.call(node, env, want='none')
        elif k == 'CXXOperatorCallExpr': r = self.x_CXXOperatorCallExpr(node, env, want='none')
        else: r = self.rv(node, env)
        return

    # ------------------------------------------------------------ construction
    def default_value(self, T):
        k = T[0]
        if k == 'int': return self.bind('havoc_int ()', 'undef')
        if k == 'real': return self.bind('havoc_real ()', 'undef')
        if k == 'bool': return self.bind('havoc_bool ()', 'undef')
        if k in ('vec', 'omap', 'umap'):
            self.need(T); return tname(T) + '.empty'
        if k == 'dist': self.used.add('Dist'); return 'dist_%s_default' % T[1][0]
        if k == 'str': self.used.add('Text'); return 'VTok.empty'
        if k == 'ostream': self.used.add('Text'); return 'new_ostream'
        if k == 'istream': self.used.add('Text'); return self.bind('havoc_istream ()', 'undef')
        if k == 'ptr':
            if T[1][0] in ('int', 'real'):
                self.need(T); return self.bind('c_%s_uninit ()' % T[1][0], 'undef')
            if T[1][0] == 'cls' and T[1][1] in self.tu.classes:
                self.need(T[1]); return self.bind('havoc_%s ()' % tname(T[1]).lower(), 'undef')
        if k == 'pair':
            p = tname(T).lower(); self.need(T)
            return '{ %s_first = %s; %s_second = %s }' % (p, self.zero(T[1]), p, self.zero(T[2]))
        if k == 'cls':
            if self.is_enum(T): return self.bind('havoc_int ()', 'undef')
            c = self.tu.classes[T[1]]
            cs = [f for f in self.tu.by_qual.get(T[1] + '::' + T[1].split('::')[-1].split('<')[0], []) if f.kind == 'ctor' and not f.params and f.body is not None and not f.implicit]
            if cs:
                return self.construct(cs[0], [], {}, None)[0]
            return self.record_default(T)
        if k == 'opaque':
            uns('value of type %s' % (T,))
        uns('default value of %s' % (T,))

    def record_default(self, T, given=None, env=None):
        given = given or {}
        self.need(T)
        c = self.tu.classes[T[1]]
        nm = tname(T).lower()
        parts = []
        for b in c.bases:
            bt = ('cls', b)
            if self.empty_class(bt): continue
            v = given.get(('base', b))
            parts.append('%s_b_%s = %s' % (nm, tname(bt).lower(), v if v is not None else self.default_value(bt)))
        for f, t, node, _ in c.fields:
            v = given.get(('field', f))
            if v is None:
                ini = [x for x in node.get('inner', []) if 'kind' in x and x['kind'] not in ('FullComment',)]
                if node.get('hasInClassInitializer') and ini: v = self.rv(ini[0], env or {})[0]
                else: v = self.default_value(t)
            parts.append('%s_%s = %s' % (nm, f, v))
        if not parts: return self.bind('havoc_%s ()' % nm, 'obj')
        return '{ %s }' % '; '.join(parts)

    def ctor_init(self, f, env, name):
        """evaluates the initialisers; declares ref `name' and returns its LV"""
        T = ('cls', f.cls)
        given = {}
        for ini in f.inits:
            ch = [x for x in ini.get('inner', []) if 'kind' in x]
            if not ch: continue
            e = self.skip(ch[0])
            if 'baseInit' in ini:
                b = ini['baseInit'].get('desugaredQualType', ini['baseInit']['qualType'])
                if self.empty_class(('cls', b)): continue
                given[('base', b)] = self.bind(self.rv(e, env)[0], 'base')
            elif 'anyInit' in ini:
                fnm = ini['anyInit']['name']
                if e['kind'] == 'CXXDefaultInitExpr': continue
                given[('field', fnm)] = self.bind(self.rv(e, env)[0], fnm)
            elif 'delegatingInit' in ini:
                t = self.rv(e, env)[0]
                self.emit('let %s = ref (%s) in' % (name, t))
                lv = LV(('ref', name), [], T)
                return lv
            else: uns('constructor initialiser', ini)
        rec = self.record_default(T, given, env)
        self.emit('let %s = ref (%s) in' % (name, rec))
        return LV(('ref', name), [], T)

    def find_ctor(self, T, node):
        q = T[1] + '::' + T[1].split('::')[-1].split('<')[0]
        want = node.get('ctorType', {}).get('qualType', '')
        norm = lambda s: re.sub(r'\s+|noexcept(\(\w+\))?', '', s)
        cs = [f for f in self.tu.by_qual.get(q, []) if f.kind == 'ctor']
        for f in cs:
            if norm(f.node['type']['qualType']) == norm(want): return f
        # alias-spelled parameter types
        wp = self.param_types(want)
        for f in cs:
            fp = [parse_type(p['type'].get('desugaredQualType', p['type']['qualType'])) for p in f.params]
            if fp == wp: return f
        return None

    def param_types(self, q):
        from astload import split_args
        m = re.match(r'^void \((.*)\)', q)
        if not m or not m.group(1).strip(): return []
        return [parse_type(x) for x in split_args(m.group(1))]

    def x_CXXConstructExpr(self, n, env):
        T = self.typ(n)
        a = [x for x in n.get('inner', []) if 'kind' in x]
        full = a
        a = [x for x in a if x['kind'] != 'CXXDefaultArgExpr']
        k = T[0]
        if k == 'vec':
            self.need(T)
            if not a: return (tname(T) + '.empty', T)
            if len(a) == 1:
                A0 = self.typ(self.skip(a[0]))
                if A0[0] == 'vec': return (self.rv(a[0], env)[0], T)
                if A0[0] == 'int':
                    nn = self.bind(self.rv(a[0], env)[0], 'n')
                    self.assertion('vector size is non-negative', '0 <= %s' % nn)
                    return ('(%s.fill %s (%s))' % (tname(T), nn, self.zero(T[1])), T)
            if len(a) == 2:
                if self.is_iter(self.typ(self.skip_all(a[0]))): return (self.range_text(a[0], a[1], env), T)
                A0 = self.typ(self.skip(a[0]))
                if A0[0] == 'int':
                    (nn, _), (v, _) = self.rvs(a, env)
                    nn = self.bind(nn, 'n')
                    self.assertion('vector size is non-negative', '0 <= %s' % nn)
                    return ('(%s.fill %s (%s))' % (tname(T), nn, v), T)
            uns('vector constructor', n)
        if k == 'dist':
            self.used.add('Dist')
            if not a: return (self.default_value(T), T)
            if len(a) == 1: return (self.rv(a[0], env)[0], T)
            (x, _), (y, _) = [self.finite(*v) for v in self.rvs(a, env)]
            return (self.bind('new_dist_%s %s %s' % (T[1][0], self.par(x), self.par(y)), 'ds'), T)
        if k in ('omap', 'umap', 'str', 'ostream', 'istream'):
            if not a: return (self.default_value(T), T)
            if len(a) == 1: return (self.rv(a[0], env)[0], T)
            uns('constructor of %s' % (T,), n)
        if k == 'pair':
            if len(a) == 1:
                t, AT = self.rv(a[0], env)
                if AT == T: return (t, T)
                t = self.bind(t, 'pr')
                p, q = tname(T).lower(), tname(AT).lower()
                self.need(T)
                return ('{ %s_first = %s.%s_first; %s_second = %s.%s_second }' % (p, t, q, p, t, q), T)
            if len(a) == 2:
                self.need(T)
                (x, _), (y, _) = self.rvs(a, env)
                p = tname(T).lower()
                return ('{ %s_first = %s; %s_second = %s }' % (p, x, p, y), T)
            if not a: return (self.default_value(T), T)
        if k == 'cls':
            if T[1] in ('std::invalid_argument', 'std::runtime_error', 'std::exception', 'std::logic_error', 'std::out_of_range'):
                return ('()', ('exc',))
            f = self.find_ctor(T, n)
            if f is not None and f.body is None and f.mangled in self.contracts: return self.construct(f, full, env, n)
            if f is None or f.implicit or f.body is None:
                if len(a) == 1 and self.same_cls(self.typ(self.skip(a[0])), T):
                    return (self.rv(a[0], env)[0], T)
                if not a: return (self.record_default(T), T)
                if f is not None and f.body is None and not f.implicit and not f.node.get('explicitlyDefaulted'):
                    uns('constructor without a body', n)
                uns('constructor of %s' % (T,), n)
            if len(a) == 1 and len(f.params) == 1 and self.same_cls(self.typ(self.skip(a[0])), T) and self.is_temporary(a[0]):
                # copy of a temporary (elided by the compiler)
                return (self.rv(a[0], env)[0], T)
            return self.construct(f, full, env, n)
        if self.is_iter(T): uns('iterator value', n)
        uns('construction of %s' % (T,), n)
    x_CXXTemporaryObjectExpr = x_CXXConstructExpr

    def is_temporary(self, n):
        n = self.skip(n)
        if n.get('valueCategory') == 'prvalue': return True
        return False

    def same_cls(self, A, B):
        if A[0] == 'ptr': A = A[1]
        return A == B

    def construct(self, f, args, env, node):
        con = self.contracts.get(f.mangled)
        if con is not None and con.fn is not self.cur_root() and f.qual not in self.con.inline_calls:
            return self.contract_call(con, f, None, args, env, node)
        if con is not None and f.mangled == self.con.fn.mangled: pass
        # inline
        self.enter(f, node)
        e2 = self.bind_params(f, args, env, node)
        lines, _ = [], None
        name = self.fresh('obj')
        lv = self.ctor_init(f, e2, name)
        e2['this'] = lv
        self.inline_body(f, e2, ('void',))
        self.leave()
        return ('!' + name, ('cls', f.cls))

    def cur_root(self): return self.con.fn

    def x_CXXNewExpr(self, n, env):
        T = self.typ(n)
        a = [x for x in n.get('inner', []) if 'kind' in x]
        if n.get('isArray'): uns('array new', n)
        if a: return (self.rv(a[0], env)[0], T)
        return (self.default_value(T[1]), T)

    def x_InitListExpr(self, n, env):
        T = self.typ(n)
        a = [x for x in n.get('inner', []) if 'kind' in x]
        if T[0] in ('vec', 'arr'):
            V = ('vec', T[1]); self.need(V)
            t = tname(V) + '.empty'
            for v, _ in self.rvs(a, env): t = '(%s.snoc %s (%s))' % (tname(V), t, v)
            return (t, V)
        if T[0] == 'cls' and T[1] in self.tu.classes:
            given = {}
            c = self.tu.classes[T[1]]
            flds = [f for f, _, _, _ in c.fields]
            for fnm, (v, _) in zip(flds, self.rvs(a, env)): given[('field', fnm)] = v
            return (self.record_default(T, given, env), T)
        if len(a) == 1: return self.rv(a[0], env)
        uns('initialiser list', n)

    def x_CXXStdInitializerListExpr(self, n, env):
        return self.rv(n['inner'][0], env)

    # ------------------------------------------------------------ calls
    def callee_name(self, n):
        f = self.skip_all(n['inner'][0])
        return f.get('referencedDecl', {}).get('name')

    def x_CallExpr(self, n, env):
        r = self.call(n, env, 'rv')
        if isinstance(r, LV): return (self.read(r), r.typ)
        return r

    def x_CXXMemberCallExpr(self, n, env):
        r = self.member_call(n, env, 'rv')
        if isinstance(r, LV): return (self.read(r), r.typ)
        return r

    def call(self, n, env, want):
        fref = self.skip_all(n['inner'][0])
        rd = fref.get('referencedDecl')
        args = n['inner'][1:]
        if rd is None:
            if fref['kind'] == 'MemberExpr': # static member through object
                f = self.tu.fn_of_decl(fref.get('referencedMemberDecl'))
                if f: return self.invoke(f, args, env, n, want)
            uns('indirect call', n)
        f = self.tu.fn_of_decl(rd['id'])
        name = rd.get('name')
        if f is not None and (f.body is not None or f.mangled in self.contracts):
            if f.qual == 'DelynoiConfig::instance':
                self.used.add('Cfg')
                return ('cfg', ('ptr', ('cls', 'DelynoiConfig')))
            return self.invoke(f, args, env, n, want)
        m = getattr(self, 's_' + name, None)
        if m is None: uns('call of %s' % name, n)
        return m(n, args, env)

    # --- std functions
    def real_args(self, args, env):
        out = []
        for t, T in [self.finite(*x) for x in self.rvs(args, env)]:
            out.append(t if T[0] == 'real' else self.bind('rofi (%s)' % t, 'fi'))
        return out

    def s_abs(self, n, a, env):
        t, T = self.rv(a[0], env)
        if T[0] == 'real': return ('(rabs %s)' % self.par(t), T)
        return ('(iabs %s)' % self.par(t), T)
    def s_fabs(self, n, a, env): return ('(rabs %s)' % self.par(self.real_args(a, env)[0]), ('real',))
    s_labs = s_abs; s_fabsf = s_fabs
    def s_sqrt(self, n, a, env): return (self.bind('csqrt %s' % self.par(self.real_args(a, env)[0]), 'rt'), ('real',))
    def s_pow(self, n, a, env):
        e = self.const_real(a[1])
        if e is None or e not in (1, 2, 3): uns('pow with this exponent', n)
        b = self.bind(self.real_args(a[:1], env)[0], 'pb')
        return ('(%s)' % ' *. '.join([b] * int(e)), ('real',))
    def s_hypot(self, n, a, env):
        x, y = self.real_args(a, env)
        x = self.bind(x, 'hx'); y = self.bind(y, 'hy')
        return (self.bind('csqrt (%s *. %s +. %s *. %s)' % (x, x, y, y), 'rt'), ('real',))
    def const_real(self, n):
        n = self.skip(n)
        if n['kind'] == 'FloatingLiteral': return float(n['value'])
        if n['kind'] == 'IntegerLiteral': return float(n['value'])
        if n['kind'] in ('ImplicitCastExpr', 'CStyleCastExpr'): return self.const_real(n['inner'][0])
        return None
    def s_cos(self, n, a, env): return ('(rcos %s)' % self.par(self.real_args(a, env)[0]), ('real',))
    def s_sin(self, n, a, env): return ('(rsin %s)' % self.par(self.real_args(a, env)[0]), ('real',))
    def s_atan2(self, n, a, env):
        x, y = self.real_args(a, env)
        return ('(ratan2 %s %s)' % (self.par(x), self.par(y)), ('real',))
    def minmax(self, n, a, env, r, i):
        (x, X), (y, Y) = self.rvs(a, env)
        return ('(%s %s %s)' % (r if X[0] == 'real' else i, self.par(x), self.par(y)), X)
    def s_min(self, n, a, env): return self.minmax(n, a, env, 'rmin', 'imin')
    def s_max(self, n, a, env): return self.minmax(n, a, env, 'rmax', 'imax')
    def s_fmin(self, n, a, env): return self.minmax(n, a, env, 'rmin', 'imin')
    def s_fmax(self, n, a, env): return self.minmax(n, a, env, 'rmax', 'imax')
    def s_ceil(self, n, a, env): return (self.bind('rofi (rceil %s)' % self.par(self.real_args(a, env)[0]), 'fi'), ('real',))
    def s_floor(self, n, a, env): return (self.bind('rofi (rfloor %s)' % self.par(self.real_args(a, env)[0]), 'fi'), ('real',))
    def s_move(self, n, a, env): return self.rv(a[0], env)
    s_forward = s_move
    def s_make_pair(self, n, a, env):
        T = self.typ(n)
        self.need(T)
        (x, _), (y, _) = self.rvs(a, env)
        p = tname(T).lower()
        return ('{ %s_first = %s; %s_second = %s }' % (p, x, p, y), T)
    def s_swap(self, n, a, env):
        x = self.stable(self.lval(a[0], env)); y = self.stable(self.lval(a[1], env))
        tx = self.bind(self.read(x), 'sx') if True else None
        n1 = self.fresh('sw'); 
        self.emit('let %s = %s in' % (n1, self.read(x)))
        ty = self.fresh('sw'); self.emit('let %s = %s in' % (ty, self.read(y)))
        self.write(x, ty); self.write(y, n1)
        return ('()', ('void',))
    def s_reverse(self, n, a, env):
        b = self.iter_of(a[0], env); e = self.iter_of(a[1], env)
        T = b.lv.typ
        if b.idx != '0' or e.idx != '(%s.length (%s))' % (tname(T), self.read(e.lv)): uns('std::reverse of a sub-range', n)
        self.write(b.lv, '(%s.rev (%s))' % (tname(T), self.read(b.lv)))
        return ('()', ('void',))
    def s_distance(self, n, a, env):
        x = self.iter_of(a[0], env); y = self.iter_of(a[1], env)
        return ('(%s - %s)' % (('!' + y.var) if y.var else y.idx, ('!' + x.var) if x.var else x.idx), ('int',))
    def s_sort(self, n, a, env):
        b = self.iter_of(a[0], env); e = self.iter_of(a[1], env)
        T = b.lv.typ
        m = tname(T)
        if b.idx != '0' or e.idx != '(%s.length (%s))' % (m, self.read(e.lv)): uns('std::sort of a sub-range', n)
        if len(a) == 3:
            cmp_t = self.typ(self.skip(a[2]))
            f = None
            if cmp_t[0] == 'cls': f = self.tu.find_fn(cmp_t[1] + '::operator()')
            con = self.contracts.get(f[0].mangled) if f else None
            if con is None: uns('std::sort with this comparator', n)
            self.callee_note(con)
            self.used.add('Sort_' + m)
            for u in con.uses: self.used.add(u)
            # the comparator's contract is proved separately; sorting yields a permutation ordered by it
            self.write(b.lv, self.bind('Sort_%s.sort_%s (%s)' % (m, con.name, self.read(b.lv)), 'srt'))
            return ('()', ('void',))
        uns('std::sort', n)
    def s_free(self, n, a, env):
        lv = self.lval(self.skip_all(a[0]), env)
        T = lv.typ
        if T[0] != 'ptr' or T[1][0] not in ('real', 'int'): uns('free', n)
        self.write(lv, self.bind('c_%s_free (%s)' % (T[1][0], self.read(lv)), 'fr'))
        return ('()', ('void',))
    def s_triangulate(self, n, a, env):
        """the bundled library: spec/trilib.mlw"""
        self.used.add('TriLib')
        sw = self.bind(self.rv(a[0], env)[0], 'sw')
        i = self.lval(a[1], env); o = self.stable(self.lval(a[2], env))
        if self.rv(a[3], env)[0] != 'NULLIO': uns('Voronoi output of the library', n)
        r = self.fresh('io')
        self.emit('let %s = triangulate_lib %s %s %s in' % (r, sw, self.par(self.read(i)), self.par(self.read(o))))
        self.effects += 1
        self.write(o, r)
        return ('()', ('void',))
    def s_endl(self, n, a, env): return ('ENDL', ('manip',))
    def s_setprecision(self, n, a, env): return ('(SetPrec %s)' % self.par(self.rv(a[0], env)[0]), ('manip',))
    def s_setw(self, n, a, env): uns('setw', n)
    def s_atof(self, n, a, env):
        self.used.add('Text'); return ('(tok_atof %s)' % self.par(self.rv(a[0], env)[0]), ('real',))
    def s_stod(self, n, a, env): return self.s_atof(n, a, env)
    def s_stoi(self, n, a, env): return self.s_atoi(n, a, env)
    def s_atoi(self, n, a, env):
        self.used.add('Text'); return ('(tok_atoi %s)' % self.par(self.rv(a[0], env)[0]), ('int',))
    def s_getline(self, n, a, env):
        self.used.add('Text')
        st = self.lval(a[0], env); ln = self.lval(a[1], env)
        cur = self.bind(self.read(st), 'ist')
        self.write(ln, '(getline_text %s)' % cur)
        self.write(st, '(getline_rest %s)' % cur)
        return ('()', ('void',))
    def s_to_string(self, n, a, env):
        self.used.add('Text')
        t, T = self.rv(a[0], env)
        if T[0] != 'int': uns('to_string of %s' % (T,), n)
        return ('(VTok.snoc VTok.empty (IntTok %s))' % self.par(t), ('str',))

    # --- project functions
    def invoke(self, f, args, env, n, want, op_call=False):
        this = None
        if f.kind == 'method' and not f.static:
            if op_call:
                this = self.lval_any(args[0], env); args = args[1:]
            else: raise AssertionError
        return self.invoke_on(f, this, args, env, n, want)

    def invoke_on(self, f, this, args, env, n, want):
        con = self.contracts.get(f.mangled)
        if this is not None:
            T = this.typ if this.typ[0] != 'ptr' else this.typ[1]
            if T != ('cls', f.cls):
                this = self.up_to(this, f.cls)
        if con is not None and f.qual not in self.con.inline_calls and not (con.fn.mangled == self.con.fn.mangled and False):
            return self.contract_call(con, f, this, args, env, n)
        if f.body is None: uns('function %s has no body' % f.qual, n)
        return self.inline(f, this, args, env, n, want)

    def up_to(self, lv, cls):
        T = lv.typ if lv.typ[0] != 'ptr' else lv.typ[1]
        if T == ('cls', cls): return lv
        c = self.cls_of(T)
        if c is None: uns('object of type %s for a method of %s' % (T, cls))
        for b in c.bases:
            if b == cls or self.derives(b, cls):
                return self.up_to(self.to_base(lv, b), cls)
        uns('object of type %s for a method of %s' % (T, cls))

    def derives(self, a, b):
        c = self.tu.classes.get(a)
        return c is not None and any(x == b or self.derives(x, b) for x in c.bases)

    def enter(self, f, node):
        self.depth += 1
        if self.depth > 24: uns('inlining too deep (recursion?) at %s' % f.qual, node)
        if f.mangled == self.con.fn.mangled and False: uns('recursion')
        self.inlined.add(f.qual)
    def leave(self): self.depth -= 1

    def default_arg(self, f, p, a, node):
        if a['kind'] != 'CXXDefaultArgExpr' or a.get('inner'): return a
        ini = [x for x in p.get('inner', []) if 'kind' in x]
        if not ini:
            decl = self.tu.by_id.get(f.node.get('previousDecl', ''), {})
            ps = [x for x in decl.get('inner', []) if x.get('kind') == 'ParmVarDecl']
            if ps: ini = [x for x in ps[f.params.index(p)].get('inner', []) if 'kind' in x]
        if not ini: uns('default argument', node)
        return ini[0]

    def bind_params(self, f, args, env, node):
        e2 = {}
        pend = []
        args = list(args)
        for p, a in zip(f.params, args):
            qt = p['type'].get('desugaredQualType', p['type']['qualType'])
            T = parse_type(qt)
            a = self.default_arg(f, p, a, node)
            isref = qt.strip().endswith('&') or (T[0] == 'ptr' and T[1][0] != 'char')
            if self.is_iter(T):
                it = self.iter_of(a, env)
                pend.append((p, 'iter', it, T)); continue
            if T[0] == 'ptr' and T[1][0] == 'char':
                pend.append((p, 'skip', None, T)); continue
            if isref:
                sa = self.skip(a)
                lv = self.lval(a, env)
                lv = self.stable(lv)
                pend.append((p, 'lv', lv, T))
            else:
                t, AT = self.rv(a, env)
                if T[0] == 'real' and AT[0] == 'int': t = self.bind('rofi (%s)' % t, 'fi')
                if T[0] == 'real' and AT[0] == 'xreal': T = AT
                t = self.bind(t, 'arg') if '!' in t else t
                pend.append((p, 'val', t, T))
        for p, k, v, T in pend:
            nm = p.get('name', 'arg')
            if k == 'lv': e2[p['id']] = v
            elif k == 'iter': e2[p['id']] = v
            elif k == 'skip': pass
            else:
                w = self.fresh(nm)
                self.emit('let %s = ref (%s) in' % (w, v))
                e2[p['id']] = LV(('ref', w), [], T)
                self.declare_var(w, nm, T, e2)
        # inlined scopes still see the caller's contract names
        v = dict(env.get('$vars', {})); v.update(e2.get('$vars', {})); e2['$vars'] = v
        return e2

    def inline(self, f, this, args, env, n, want):
        self.enter(f, n)
        e2 = self.bind_params(f, args, env, n)
        if this is not None: e2['this'] = self.stable(this)
        rq = f.ret.strip()
        body = [s for s in f.body.get('inner', []) if 'kind' in s and s['kind'] != 'NullStmt']
        T = parse_type(self.ret_desugared(f))
        isref = rq.endswith('&') or (rq.endswith('*'))
        if isref and T != ('void',):
            # reference-returning: keep it an lvalue
            if not body or body[-1]['kind'] != 'ReturnStmt': uns('reference-returning function %s' % f.qual, n)
            for s in body[:-1]: self.stmt(s, e2)
            r = body[-1]['inner'][0]
            rk = self.skip(r)
            try_new = rk['kind'] in ('CXXNewExpr',) or (rk['kind'].endswith('CastExpr') and self.skip_all(rk)['kind'] == 'CXXNewExpr')
            lv = self.lval(r, e2)
            self.leave()
            return lv
        # pure single return: expression inlining
        if len(body) == 1 and body[0]['kind'] == 'ReturnStmt' and body[0].get('inner') and not self.is_iter(T):
            r = self.rv(body[0]['inner'][0], e2)
            self.leave()
            if T[0] == 'real' and r[1][0] == 'int': r = (self.bind('rofi (%s)' % r[0], 'fi'), T)
            if r[1][0] == 'xreal': return r
            return (r[0], T if T[0] != 'opaque' else r[1])
        if self.is_iter(T):
            if body and body[-1]['kind'] == 'ReturnStmt':
                for s in body[:-1]: self.stmt(s, e2)
                uns('function returning an iterator', n)
        r = self.inline_body(f, e2, T)
        self.leave()
        return (r, T)

    def ret_desugared(self, f):
        r = f.ret
        return r

    def inline_body(self, f, e2, T):
        """emit an inlined body in tail form; returns the result text"""
        def run():
            return self.block(f.body, e2, ('tail', T, lambda v: v if v is not None else '()'))
        self.body_stack.append(f.body)
        lines, text = self.sub(run)
        self.body_stack.pop()
        text = ' '.join(lines + [text])
        if T[0] == 'void':
            self.emit('begin %s end;' % text)
            return '()'
        r = self.fresh('r')
        self.emit('let %s = begin %s end in' % (r, text))
        return r

    def contract_call(self, con, f, this, args, env, n):
        """call through the contract"""
        self.callee_note(con)
        nm = 'c_' + con.name
        texts = []
        after = []
        def ref_arg(lv):
            w = self.fresh('ra')
            self.emit('let %s = ref (%s) in' % (w, self.read(lv)))
            after.append((lv, w))
            return w
        if f.kind == 'method' and not f.static:
            if 'self' in con.modifies: texts.append(ref_arg(self.stable(this)))
            else: texts.append(self.par(self.bind(self.read(this), 'ob')))
        pend = []
        for pname, p, a in zip(con.params, f.params, args):
            a = self.default_arg(f, p, a, n)
            qt = p['type'].get('desugaredQualType', p['type']['qualType'])
            T = parse_type(qt)
            if T[0] == 'ptr' and T[1][0] == 'char':
                pend.append(('v', self.char_arg(a, env))); continue
            if pname in con.modifies:
                pend.append(('r', self.stable(self.lval(a, env))))
            else:
                t, AT = self.finite(*self.rv(a, env))
                if T[0] == 'real' and AT[0] == 'int': t = self.bind('rofi (%s)' % t, 'fi')
                pend.append(('v', self.bind(t, 'ar')))
        for k, v in pend:
            texts.append(ref_arg(v) if k == 'r' else self.par(v))
        if not texts: texts = ['()']
        RT = ('cls', f.cls) if f.kind == 'ctor' else parse_type(f.ret)
        if con.throws: self.can_throw = True
        if con.diverges: self.div = True
        call = '%s %s' % (nm, ' '.join(texts))
        if con.throws and after:
            # write-back also on the exceptional exit
            wb = ' '.join('%s := %s;' % (lv.root[1], self.upd('!' + lv.root[1], lv.accs, '!' + w)) for lv, w in after if lv.root[0] == 'ref')
            call = '(try %s with Throw -> begin %s raise Throw end end)' % (call, wb)
        if RT[0] == 'void':
            self.emit(call + ';'); r = '()'
        else:
            r = self.fresh('r'); self.emit('let %s = %s in' % (r, call))
        for lv, w in after: self.write(lv, '!' + w)
        return (r, RT)

    def char_arg(self, a, env):
        """a char* argument (Triangle's switches): the characters of the array it names"""
        lv = self.lval(a, env)
        return self.read(lv)

    def callee_note(self, con):
        if con.name in self.callee_decl: return
        saved = self.used
        f = con.fn
        sig = []
        holes = {}
        if f.kind == 'method' and not f.static:
            T = ('cls', f.cls)
            if 'self' in con.modifies:
                sig.append('(self: ref %s)' % self.wt(T)); holes['self'] = ('!self', '(old !self)')
            else:
                sig.append('(self: %s)' % self.wt(T)); holes['self'] = ('self', 'self')
        for nm, p in zip(con.params, f.params):
            T = parse_type(p['type'].get('desugaredQualType', p['type']['qualType']))
            if T[0] == 'ptr' and T[1][0] == 'char': T = ('vec', ('int',))
            if nm in con.modifies:
                sig.append('(%s: ref %s)' % (nm, self.wt(T))); holes[nm] = ('!' + nm, '(old !%s)' % nm)
            else:
                sig.append('(%s: %s)' % (nm, self.wt(T))); holes[nm] = (nm, nm)
        RT = ('cls', f.cls) if f.kind == 'ctor' else parse_type(f.ret)
        t = '  val c_%s %s : %s\n' % (con.name, ' '.join(sig) if sig else '()', self.wt(RT))
        if con.diverges: t += '    diverges\n'
        for r in con.requires:
            rr = r if isinstance(r, tuple) else ('precondition of %s' % con.qual, r)
            t += '    requires { %s }\n' % self.label(('precondition of %s: %s' % (con.qual, rr[0]) if isinstance(r, tuple) else rr[0], rr[1]), holes)
        ph = dict(holes); ph['result'] = ('result', 'result')
        if f.kind == 'ctor': ph['self'] = ('result', 'result')
        ws = [m for m in con.modifies] + con.globals_
        if ws: t += '    writes { %s }\n' % ', '.join(ws)
        for e in con.ensures: t += '    ensures { %s }\n' % self.subst_with(e[1] if isinstance(e, tuple) else e, ph)
        if con.throws: t += '    raises { Throw -> %s }\n' % self.subst_with(con.throws, ph)
        if {'UL_Int', 'UL_Real'} & set(con.uses) and not {'UL_Int', 'UL_Real'} & set(x for x in self.con.uses if 'UL_Point' not in self.con.uses):
            # two list theories in one caller: the contract is declared in a module of its own
            ks = set(con.uses)
            for T in [('cls', f.cls)] * (f.kind != 'fn' and bool(f.cls)) + [RT] + [parse_type(p['type'].get('desugaredQualType', p['type']['qualType'])) for p in f.params]:
                s2, self.used = self.used, set(); self.need(T); ks |= self.used; self.used = s2 | self.used
            self.kmods[con.name] = (ks, t)
            t = '  use K_%s\n' % con.name
        else:
            for u in con.uses: self.used.add(u)
        self.callee_decl[con.name] = (con, t)

    # ------------------------------------------------------------ member calls
    def member_call(self, n, env, want):
        me = self.skip(n['inner'][0])
        args = n['inner'][1:]
        if me['kind'] != 'MemberExpr': uns('member call', n)
        name = me['name']
        base = me['inner'][0]
        f = self.tu.fn_of_decl(me.get('referencedMemberDecl', ''))
        bn = self.skip(base)
        it = self.try_iter_arrow(bn, env) if bn['kind'] == 'CXXOperatorCallExpr' and self.is_iter(self.typ(self.skip_all(bn['inner'][1]))) else None
        lv = self.iter_deref(it, n) if it is not None and (it.lv.typ[0] != 'umap') else self.lval_any(base, env)
        T = lv.typ
        if T[0] == 'ptr': T = T[1]
        if T[0] == 'cls' and T[1] in self.tu.classes:
            if f is None: uns('method %s' % name, n)
            if f.virtual and f.body is None and f.mangled not in self.contracts: uns('virtual call of %s without a contract' % f.qual, n)
            return self.invoke_on(f, lv, args, env, n, want)
        h = getattr(self, 'm_%s_%s' % (T[0], name), None)
        if h is None: uns('%s::%s' % (T[0], name), n)
        return h(n, lv, T, args, env)

    def rd_(self, lv): return self.read(lv)

    def m_vec_size(self, n, lv, T, a, env): self.need(T); return ('(%s.length (%s))' % (tname(T), self.read(lv)), ('int',))
    def m_vec_empty(self, n, lv, T, a, env): self.need(T); return ('(%s.length (%s) = 0)' % (tname(T), self.read(lv)), ('bool',))
    def m_vec_push_back(self, n, lv, T, a, env):
        self.need(T)
        v, VT = self.rv(a[0], env)
        if T[1][0] == 'real' and VT[0] == 'int': v = self.bind('rofi (%s)' % v, 'fi')
        self.write(lv, '(%s.snoc (%s) (%s))' % (tname(T), self.read(lv), v))
        return ('()', ('void',))
    def m_vec_emplace_back(self, n, lv, T, a, env):
        if len(a) == 1 and (self.typ(self.skip(a[0])) == T[1] or T[1][0] in ('int', 'real')): return self.m_vec_push_back(n, lv, T, a, env)
        if T[1][0] == 'cls':
            argT = [self.typ(self.skip(x)) for x in a]
            q = T[1][1] + '::' + T[1][1].split('::')[-1].split('<')[0]
            for f in self.tu.by_qual.get(q, []):
                if f.kind == 'ctor' and f.body is not None and not f.implicit and [parse_type(p['type'].get('desugaredQualType', p['type']['qualType'])) for p in f.params] == argT:
                    v = self.construct(f, a, env, n)[0]
                    self.need(T)
                    self.write(lv, '(%s.snoc (%s) (%s))' % (tname(T), self.read(lv), v))
                    return ('()', ('void',))
        uns('emplace_back', n)
    def m_vec_clear(self, n, lv, T, a, env):
        self.need(T); self.write(lv, tname(T) + '.empty'); return ('()', ('void',))
    def m_vec_reserve(self, n, lv, T, a, env):
        self.rv(a[0], env); return ('()', ('void',))
    def m_vec_shrink_to_fit(self, n, lv, T, a, env): return ('()', ('void',))
    def m_vec_at(self, n, lv, T, a, env): return self.index(lv, a[0], env, n)
    def m_vec_back(self, n, lv, T, a, env):
        self.need(T)
        return self.index_t(lv, '(%s.length (%s) - 1)' % (tname(T), self.read(lv)), n)
    def m_vec_front(self, n, lv, T, a, env): return self.index_t(lv, '0', n)
    def m_vec_pop_back(self, n, lv, T, a, env):
        self.need(T); m = tname(T)
        self.assertion('pop_back of a non-empty vector', '%s.length (%s) > 0' % (m, self.read(lv)))
        self.write(lv, '(%s.sub (%s) 0 (%s.length (%s) - 1))' % (m, self.read(lv), m, self.read(lv)))
        return ('()', ('void',))
    def m_vec_assign(self, n, lv, T, a, env):
        self.need(T)
        if self.is_iter(self.typ(self.skip_all(a[0]))):
            s = self.range_text(a[0], a[1], env)
            self.write(lv, s); return ('()', ('void',))
        (c, _), (v, _) = self.rvs(a, env)
        self.write(lv, '(%s.fill %s (%s))' % (tname(T), self.par(c), v)); return ('()', ('void',))
    def m_vec_insert(self, n, lv, T, a, env): self.iter_of(n, env); return ('()', ('void',))
    def m_vec_erase(self, n, lv, T, a, env): self.iter_of(n, env); return ('()', ('void',))
    def m_vec_swap(self, n, lv, T, a, env):
        o = self.stable(self.lval(a[0], env)); lv = self.stable(lv)
        x = self.fresh('sw'); self.emit('let %s = %s in' % (x, self.read(lv)))
        y = self.fresh('sw'); self.emit('let %s = %s in' % (y, self.read(o)))
        self.write(lv, y); self.write(o, x); return ('()', ('void',))

    def m_omap_size(self, n, lv, T, a, env): self.need(T); return ('(%s.length (%s))' % (tname(T), self.read(lv)), ('int',))
    def m_omap_empty(self, n, lv, T, a, env): self.need(T); return ('(%s.length (%s) = 0)' % (tname(T), self.read(lv)), ('bool',))
    def m_omap_clear(self, n, lv, T, a, env): self.need(T); self.write(lv, tname(T) + '.empty'); return ('()', ('void',))
    def m_omap_insert(self, n, lv, T, a, env): self.omap_iter(lv, T, 'insert', a, env, n); return ('()', ('void',))
    def m_omap_emplace(self, n, lv, T, a, env): self.omap_iter(lv, T, 'emplace', a, env, n); return ('()', ('void',))
    def m_omap_emplace_hint(self, n, lv, T, a, env): self.omap_iter(lv, T, 'emplace_hint', a, env, n); return ('()', ('void',))
    def m_omap_erase(self, n, lv, T, a, env): self.omap_iter(lv, T, 'erase', a, env, n); return ('()', ('void',))
    def m_omap_count(self, n, lv, T, a, env):
        self.need(T); self.used.add('O' + tname(T))
        kx, _ = self.rv(a[0], env)
        r = self.bind('O%s.find (%s) (%s)' % (tname(T), self.read(lv), kx), 'it')
        return ('(if %s < %s.length (%s) then 1 else 0)' % (r, tname(T), self.read(lv)), ('int',))
    def m_omap_find(self, n, lv, T, a, env): self.omap_iter(lv, T, 'find', a, env, n); return ('()', ('void',))

    def m_umap_size(self, n, lv, T, a, env): self.need(T); return ('(%s.size (%s))' % (tname(T), self.read(lv)), ('int',))
    def m_umap_empty(self, n, lv, T, a, env): self.need(T); return ('(%s.size (%s) = 0)' % (tname(T), self.read(lv)), ('bool',))
    def m_umap_clear(self, n, lv, T, a, env): self.need(T); self.write(lv, tname(T) + '.empty'); return ('()', ('void',))
    def m_umap_count(self, n, lv, T, a, env):
        self.need(T)
        kx, _ = self.rv(a[0], env)
        return ('(if %s.mem (%s) (canon_%s (%s)) then 1 else 0)' % (tname(T), self.read(lv), tname(T).lower(), kx), ('int',))
    def m_umap_insert(self, n, lv, T, a, env):
        self.need(T)
        if len(a) == 1:
            t, PT = self.rv(a[0], env)
            t = self.bind(t, 'pr'); p = tname(PT).lower()
            kx = self.bind('%s.%s_first' % (t, p), 'ky'); vx = '%s.%s_second' % (t, p)
        else: uns('unordered_map::insert', n)
        return self.umap_add(lv, T, kx, vx)
    def m_umap_emplace(self, n, lv, T, a, env):
        self.need(T)
        if len(a) != 2: uns('unordered_map::emplace', n)
        (kx, _), (vx, VT) = self.rvs(a, env)
        if VT != T[2]: uns('unordered_map::emplace', n)
        return self.umap_add(lv, T, self.bind(kx, 'ky'), vx)
    def umap_add(self, lv, T, kx, vx):
        m = tname(T)
        self.emit('(if not (%s.mem (%s) (canon_%s %s)) then %s := %s);' % (m, self.read(lv), m.lower(), kx, lv.root[1],
                  self.upd('!' + lv.root[1], lv.accs, '(%s.put (%s) %s (%s))' % (m, self.read(lv), kx, vx))))
        self.note_write(lv)
        return ('()', ('void',))

    # strings and streams
    def m_str_c_str(self, n, lv, T, a, env): return (self.read(lv), ('str',))
    def m_str_str(self, n, lv, T, a, env): return (self.read(lv), ('str',))
    def m_str_size(self, n, lv, T, a, env): uns('string length', n)
    def m_ostream_str(self, n, lv, T, a, env): return ('(%s).os_text' % self.read(lv), ('str',))
    def m_ostream_open(self, n, lv, T, a, env):
        self.used.add('Text')
        nm = self.bind(self.as_str(*self.rv(a[0], env)), 'fn')
        self.write(lv, '{ (%s) with os_text = VTok.empty }' % self.read(lv))
        self.emit('disk_name := %s;' % nm); self.effects += 1
        return ('()', ('void',))
    def m_ostream_close(self, n, lv, T, a, env):
        self.used.add('Text')
        self.emit('disk := (%s).os_text;' % self.read(lv)); self.effects += 1
        return ('()', ('void',))
    def m_ostream_good(self, n, lv, T, a, env): return (self.bind('havoc_bool ()', 'gd'), ('bool',))
    def m_istream_close(self, n, lv, T, a, env): return ('()', ('void',))
    def m_ostream_precision(self, n, lv, T, a, env):
        self.used.add('Text')
        v = self.rv(a[0], env)[0]
        self.write(lv, '{ (%s) with os_prec = %s }' % (self.read(lv), v))
        return ('()', ('void',))

    def x_CXXOperatorCallExpr(self, n, env, want='rv'):
        op = self.opname(n)
        a = n['inner'][1:]
        fref = self.skip_all(n['inner'][0])
        f = self.tu.fn_of_decl(fref['referencedDecl']['id']) if 'referencedDecl' in fref else None
        if f is not None and (f.body is not None or f.mangled in self.contracts) and not f.implicit:
            if f.kind == 'method':
                r = self.invoke(f, a, env, n, want, op_call=True)
            else: r = self.invoke(f, a, env, n, want)
            if isinstance(r, LV): return (self.read(r), r.typ)
            return r
        T0 = self.typ(self.skip_all(a[0]))
        if self.is_iter(T0):
            if op in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
                return self.iter_cmp(op, a[0], a[1], env, n)
            if op == 'operator-' and self.is_iter(self.typ(self.skip_all(a[1]))):
                return self.iter_cmp(op, a[0], a[1], env, n)
            if op in ('operator*', 'operator->'):
                lv = self.lval(n, env); return (self.read(lv), lv.typ)
            self.iter_of(n, env); return ('()', ('void',))
        if op == 'operator()' and T0[0] == 'dist':
            self.used.add('Dist')
            return (self.bind('draw_%s %s' % (T0[1][0], self.par(self.rv(a[0], env)[0])), 'dr'), T0[1])
        if op == 'operator=':
            v, VT = self.rv(a[1], env)
            v = self.bind(v, 'nv')
            lv = self.lval(a[0], env)
            self.write(lv, v)
            return (self.read(lv), lv.typ)
        if op == 'operator[]':
            lv = self.lval(n, env); return (self.read(lv), lv.typ)
        if op == 'operator<<': return self.shift_out(n, a, env)
        if op in ('operator+', 'operator+='):
            return self.str_cat(n, op, a, env)
        if op in ('operator==', 'operator!='):
            (x, X), (y, Y) = self.rvs(a, env)
            if X[0] == 'vec':
                if X[1][0] in ('int',):
                    return ('(%s.equal (%s) (%s))' % (tname(X), x, y), ('bool',)) if False else self.vec_eq(X, x, y, op, n)
                return self.vec_eq(X, x, y, op, n)
        uns('operator %s on %s' % (op, T0), n)

    def vec_eq(self, X, x, y, op, n):
        self.need(X); m = tname(X)
        x = self.bind(x, 'vx'); y = self.bind(y, 'vy')
        r = self.fresh('ve')
        eq = self.eq_logic(X[1], '(%s.get %s i)' % (m, x), '(%s.get %s i)' % (m, y), n)
        self.emit('let %s = havoc_bool () in assume { %s = True <-> (%s.length %s = %s.length %s /\\ forall i: int. 0 <= i < %s.length %s -> %s) };' % (r, r, m, x, m, y, m, x, eq))
        return (r if op == 'operator==' else '(not %s)' % r, ('bool',))

    def str_cat(self, n, op, a, env):
        self.used.add('Text')
        if op == 'operator+':
            (x, X), (y, Y) = self.rvs(a, env)
            return ('(VTok.app %s %s)' % (self.par(self.as_str(x, X)), self.par(self.as_str(y, Y))), ('str',))
        y, Y = self.rv(a[1], env)
        y = self.bind(self.as_str(y, Y), 'st')
        lv = self.lval(a[0], env)
        self.write(lv, '(VTok.app (%s) %s)' % (self.read(lv), y))
        return (self.read(lv), lv.typ)

    def as_str(self, t, T):
        if T[0] == 'str': return t
        if T[0] == 'char': return '(VTok.snoc VTok.empty (Ch %s))' % t
        uns('string operand %s' % (T,))

    def shift_out(self, n, a, env, want_lv=False):
        self.used.add('Text')
        T0 = self.typ(self.skip(a[0]))
        lv = self.lval(a[0], env)
        if lv.typ[0] == 'vec':   # ClipperLib: path << point
            v, _ = self.rv(a[1], env)
            self.write(lv, '(%s.snoc (%s) (%s))' % (tname(lv.typ), self.read(lv), v))
            return lv if want_lv else (self.read(lv), lv.typ)
        if lv.typ[0] == 'void' or lv.typ[0] == 'opaque': uns('stream', n)
        s = self.skip_all(a[1])
        nm = s.get('referencedDecl', {}).get('name') if s['kind'] == 'DeclRefExpr' else None
        cur = lambda: self.read(lv)
        if nm == 'endl': self.write(lv, '(os_char (%s) 10)' % cur())
        elif nm == 'fixed': self.write(lv, '{ (%s) with os_fixed = true }' % cur())
        elif nm == 'scientific': uns('std::scientific', n)
        else:
            t, T = self.rv(a[1], env)
            if t.startswith('(SetPrec '): T = ('manip',)
            if T[0] == 'manip':
                m = re.match(r'^\(SetPrec (.*)\)$', t)
                if not m: uns('manipulator', n)
                self.write(lv, '{ (%s) with os_prec = %s }' % (cur(), m.group(1)))
            elif T[0] == 'int': self.write(lv, '(os_int (%s) %s)' % (cur(), self.par(t)))
            elif T[0] == 'char': self.write(lv, '(os_char (%s) %s)' % (cur(), self.par(t)))
            elif T[0] == 'real': self.write(lv, '(os_real (%s) %s)' % (cur(), self.par(t)))
            elif T[0] == 'str' and re.match(r'^\(VTok\.snoc VTok\.empty \(Ch \d+\)\)$', t): self.write(lv, '(os_char (%s) %s)' % (cur(), re.findall(r'\d+', t)[0]))
            elif T[0] == 'str': self.write(lv, '(os_str (%s) %s)' % (cur(), self.par(t)))
            else: uns('output of %s' % (T,), n)
        return lv if want_lv else (self.read(lv), lv.typ)

    # ------------------------------------------------------------ statements
    def block(self, node, env, mode):
        """a compound statement in tail position: returns text"""
        env = dict(env)
        st = node.get('inner', []) if node['kind'] == 'CompoundStmt' else [node]
        st = [s for s in st if 'kind' in s]
        lines, last = self.sub(lambda: self.tail(st, env, mode))
        return ' '.join(lines + [last])

    def terminates(self, s):
        """does the statement always leave the function?"""
        k = s.get('kind')
        if k in ('ReturnStmt',): return True
        if k in ('ExprWithCleanups',): return self.terminates(s['inner'][0])
        if k == 'CXXThrowExpr': return True
        if k == 'CompoundStmt': return any(self.terminates(x) for x in s.get('inner', []) if 'kind' in x)
        if k == 'IfStmt':
            ch = self.if_parts(s)
            return ch[2] is not None and self.terminates(ch[1]) and self.terminates(ch[2])
        return False

    def has_return(self, s):
        if not isinstance(s, dict): return False
        if s.get('kind') == 'ReturnStmt': return True
        if s.get('kind') == 'LambdaExpr': return False
        return any(self.has_return(x) for x in s.get('inner', []))

    def has_kind(self, s, kinds, stop=()):
        if not isinstance(s, dict): return False
        if s.get('kind') in kinds: return True
        if s.get('kind') in stop: return False
        return any(self.has_kind(x, kinds, stop) for x in s.get('inner', []))

    def if_parts(self, s):
        ch = list(s.get('inner', []))
        if s.get('hasInit') or s.get('hasVar'): uns('if with a declaration', s)
        c = ch[0]; t = ch[1]; e = ch[2] if s.get('hasElse') else None
        return (c, t, e)

    def tail(self, st, env, mode):
        """translate a statement list in tail position. mode = ('tail', T, finish)"""
        _, T, fin = mode
        for i, s in enumerate(st):
            rest = st[i + 1:]
            k = s['kind']
            if k == 'ReturnStmt':
                ch = [x for x in s.get('inner', []) if 'kind' in x]
                if not ch: return fin(None)
                if T[0] == 'void' :
                    self.rv_discard(ch[0], env); return fin(None)
                v = self.ret_value(ch[0], env, T)
                return fin(v)
            ss = s
            while ss['kind'] == 'ExprWithCleanups': ss = ss['inner'][0]
            if ss['kind'] == 'CXXThrowExpr':
                return 'raise Throw'
            if k == 'CompoundStmt' and self.has_return(s):
                inner = [x for x in s.get('inner', []) if 'kind' in x]
                return self.block_list(inner, rest, env, mode)
            if k == 'IfStmt' and (self.has_return(s) or self.terminates(s) or self.throws_inside(s)):
                c, t, e = self.if_parts(s)
                cv = self.const_bool(c)
                if cv is False:
                    if e is not None: return self.tail([e] + rest, env, mode)
                    continue
                ct = self.boolv(c, env)
                snap = self.snapshot()
                a = self.tail_sub([t] + ([] if self.terminates(t) else rest), env, mode)
                b = self.tail_sub(([e] if e is not None else []) + ([] if e is not None and self.terminates(e) else rest), env, mode)
                return 'if %s then begin %s end else begin %s end' % (ct, a, b)
            if k == 'SwitchStmt':
                return self.switch_tail(s, rest, env, mode)
            if k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt') and self.has_return(s) and self.const_loop(s) is None:
                # returns inside a loop: leave through an exception
                exn = self.ret_exc(T)
                def go(): self.stmt(s, env, ('exc', T))
                lines, _ = self.sub(go)
                after = self.tail_sub(rest, env, mode)
                # no return value handling after the loop: finish() is applied at the handler
                hv = self.fresh('rv')
                body = ' '.join(lines)
                done = self.fresh('brk')
                self.exc.add(('Ret' + self.exn_name(T), self.wt(T)))
                nm = self.fresh('lp')
                fintext = self.sub_fin(fin, hv if T[0] != 'void' else None)
                lx = 'try begin %s %s end with Ret%s%s -> %s end' % (body, self.wrap_none(after, T), self.exn_name(T), (' ' + hv) if T[0] != 'void' else '', fintext)
                return '(%s)' % lx
            self.stmt(s, env)
        if T[0] != 'void':
            return 'absurd'
        return fin(None)

    def wrap_none(self, after, T): return after

    def sub_fin(self, fin, v):
        return fin(v)

    def exn_name(self, T):
        return '_' + (tname(T) if T[0] not in ('void',) else 'Void')

    def ret_exc(self, T):
        return 'Ret' + self.exn_name(T)

    def throws_inside(self, s):
        return False

    def snapshot(self): return None

    def tail_sub(self, st, env, mode):
        e = dict(env)
        lines, last = self.sub(lambda: self.tail([x for x in st], e, mode))
        return ' '.join(lines + [last])

    def block_list(self, inner, rest, env, mode):
        # a nested compound: its declarations go out of scope, harmless
        return self.tail_sub(inner + rest, env, mode)

    def ret_value(self, node, env, T):
        if self.is_iter(T): uns('returned iterator', node)
        t, VT = self.finite(*self.rv(node, env))
        if T[0] == 'real' and VT[0] == 'int': t = self.bind('rofi (%s)' % t, 'fi')
        if T[0] == 'int' and VT[0] == 'bool': t = '(if %s then 1 else 0)' % t
        if T[0] == 'bool' and VT[0] == 'int': t = '(not (%s = 0))' % t
        if T[0] == 'cls' and VT[0] == 'cls' and VT != T:
            lv = LV(('val', self.bind(t, 'c')), [], VT)
            t = self.read(self.up_to(lv, T[1]))
        return t

    def const_bool(self, c):
        c = self.skip(c)
        if c['kind'] == 'CXXBoolLiteralExpr': return bool(c['value'])
        if c['kind'] == 'IntegerLiteral': return int(c['value']) != 0
        if c['kind'] == 'ImplicitCastExpr': return self.const_bool(c['inner'][0])
        return None

    def const_loop(self, s):
        """None, or 'once'/'never' for do-while(0), while(false), for(;false;)"""
        k = s['kind']
        if k == 'DoStmt':
            if self.const_bool(s['inner'][1]) is False: return 'once'
        if k == 'WhileStmt':
            if self.const_bool(s['inner'][0]) is False: return 'never'
        if k == 'ForStmt':
            c = s['inner'][2]
            if c and 'kind' in c and self.const_bool(c) is False: return 'never'
        return None

    def stmts(self, st, env, rm=None):
        for s in st:
            if 'kind' in s: self.stmt(s, env, rm)

    def stmt_block(self, s, env, rm=None):
        """a nested statement -> text of a unit expression"""
        e = dict(env)
        def go():
            if s['kind'] == 'CompoundStmt': self.stmts(s.get('inner', []), e, rm)
            else: self.stmt(s, e, rm)
        lines, _ = self.sub(go)
        return 'begin %s () end' % ' '.join(lines)

    def stmt(self, s, env, rm=None):
        """a statement in non-tail position; rm = ('exc', T) when a return must leave through an exception"""
        k = s['kind']
        if k == 'NullStmt': return
        if k == 'CompoundStmt':
            e = dict(env)
            lines, _ = self.sub(lambda: self.stmts(s.get('inner', []), e, rm))
            if lines: self.emit('begin %s () end;' % ' '.join(lines))
            return
        if k == 'DeclStmt':
            for d in s.get('inner', []):
                if d.get('kind') == 'VarDecl': self.vardecl(d, env)
                elif d.get('kind') in ('CXXRecordDecl', 'TypedefDecl', 'TypeAliasDecl', 'RecordDecl', 'UsingDecl', 'StaticAssertDecl', 'UsingDirectiveDecl'): pass
                else: uns('declaration', d)
            return
        if k == 'ReturnStmt':
            if rm is None: uns('return in a nested statement', s)
            T = rm[1]
            ch = [x for x in s.get('inner', []) if 'kind' in x]
            self.exc.add(('Ret' + self.exn_name(T), self.wt(T)))
            if ch and T[0] != 'void':
                v = self.ret_value(ch[0], env, T)
                self.emit('raise (Ret%s (%s));' % (self.exn_name(T), v))
            else: self.emit('raise Ret%s;' % self.exn_name(T))
            return
        if k == 'IfStmt':
            c, t, e = self.if_parts(s)
            cv = self.const_bool(c)
            if cv is False:
                if e is not None: self.stmt(e, env, rm)
                return
            if cv is True:
                self.stmt(t, env, rm); return
            ct = self.boolv(c, env)
            tt = self.stmt_block(t, env, rm)
            et = self.stmt_block(e, env, rm) if e is not None else None
            self.emit('(if %s then %s%s);' % (ct, tt, ' else ' + et if et else ''))
            return
        if k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
            return self.loop(s, env, rm)
        if k == 'BreakStmt':
            self.exc.add(('Brk', '')); self.emit('raise Brk;'); return
        if k == 'ContinueStmt':
            self.exc.add(('Cnt', '')); self.emit('raise Cnt;'); return
        if k == 'SwitchStmt':
            lines, t = self.sub(lambda: self.switch_tail(s, [], env, ('tail', ('void',), lambda v: '()')))
            self.emit('begin %s %s end;' % (' '.join(lines), t)); return
        ss = self.skip(s)
        if ss['kind'] == 'CXXThrowExpr':
            self.emit('raise Throw;'); return
        if ss['kind'] == 'CXXTryStmt': uns('try block', s)
        if ss['kind'] in ('GCCAsmStmt', 'GotoStmt', 'LabelStmt'): uns('statement', s)
        self.rv_discard(s, env)

    def vardecl(self, d, env):
        t = d['type']
        q = t.get('desugaredQualType', t['qualType'])
        T = parse_type(q)
        name = d.get('name', 'v')
        ini = [x for x in d.get('inner', []) if 'kind' in x and x['kind'] not in ('FullComment', 'AlignedAttr', 'UnusedAttr')]
        if d.get('storageClass') == 'static':
            uns('static local variable', d)
        if self.is_iter(T):
            if not ini: uns('uninitialised iterator', d)
            it = self.iter_of(ini[0], env)
            if it.ckey is not None or it.isend:
                env[d['id']] = IterVal(it.lv, it.idx, None, it.ckey, it.isend); return
            w = self.fresh(name)
            self.emit('let %s = ref (%s) in' % (w, it.idx if it.var is None else '!' + it.var))
            env[d['id']] = IterVal(it.lv, '!' + w, w)
            self.declare_var(w, name, ('int',), env)
            return
        isref = q.strip().endswith('&') or q.strip().endswith('&&')
        if T[0] == 'ptr' and T[1][0] == 'cls' and ini:
            e = self.skip(ini[0])
            src = self.skip_all(ini[0])
            if src['kind'] != 'CXXNewExpr' and not (T[1][1] not in self.tu.classes):
                lv = self.lval(ini[0], env)
                if T[1] == ('cls', 'DelynoiConfig') or lv.root[0] == 'ref':
                    env[d['id']] = LV(lv.root, lv.accs, lv.typ if lv.typ[0] == 'ptr' else ('ptr', lv.typ)); return
        if isref and ini:
            e = self.skip(ini[0])
            lv = self.stable(self.lval(ini[0], env))
            if lv.root[0] == 'ref' or lv.accs:
                env[d['id']] = lv
                v = dict(env.get('$vars', {}))
                v[name] = (self.read(lv), T, False)
                env['$vars'] = v
                return
            if lv.root[0] == 'val':
                env[d['id']] = lv
                v = dict(env.get('$vars', {})); v[name] = (lv.root[1], T, False); env['$vars'] = v
                return
        if T[0] == 'arr' and T[1][0] == 'char':
            # char switches[] = "..."
            e = self.skip_all(ini[0]) if ini else None
            if e is None or e['kind'] != 'StringLiteral': uns('character array', d)
            import json
            V = ('vec', ('int',)); self.need(V)
            tx = 'VInt.empty'
            for ch in json.loads(e['value']): tx = '(VInt.snoc %s %d)' % (tx, ord(ch))
            val = tx; T = V
        elif ini:
            val, VT = self.rv(ini[0], env)
            if T[0] == 'real' and VT[0] == 'int': val = self.bind('rofi (%s)' % val, 'fi')
            if T[0] == 'cls' and VT[0] == 'cls' and VT != T and VT[1] in self.tu.classes and T[1] in self.tu.classes:
                val = self.read(self.up_to(LV(('val', self.bind(val, 'c')), [], VT), T[1]))
            if T[0] == 'opaque' or (T[0] == 'cls' and T[1] == 'auto'): T = VT
        else:
            val = self.default_value(T)
        if self.con.ieee is True and T[0] == 'real':
            fbody = (self.body_stack or [self.con.fn.body])[-1]
            if ini and VT[0] == 'xreal': T = VT
            elif self.assigned_xreal(fbody, d['id'], env):
                T = ('xreal',)
                val = '(xof %s)' % self.par(val)
        w = self.fresh(name)
        self.emit('let %s = ref (%s) in' % (w, val))
        if T == ('cls', 'triangulateio') and not self.dry: self.cstructs.append(w)
        env[d['id']] = LV(('ref', w), [], T)
        self.declare_var(w, name, T, env)

    # ------------------------------------------------------------ switch
    def switch_tail(self, s, rest, env, mode):
        ch = [x for x in s.get('inner', []) if 'kind' in x]
        cond, body = ch[0], ch[1]
        v = self.bind(self.rv(cond, env)[0], 'sw')
        groups = []   # (labels, stmts)
        def add(x):
            if x['kind'] in ('CaseStmt', 'DefaultStmt'):
                inn = [y for y in x.get('inner', []) if 'kind' in y]
                if x['kind'] == 'CaseStmt': lab, sub_ = inn[0], inn[1]
                else: lab, sub_ = None, inn[0]
                if groups and not groups[-1][1] : groups[-1][0].append(lab)
                else: groups.append(([lab], []))
                add(sub_)
            else:
                if not groups: uns('switch body', x)
                groups[-1][1].append(x)
        for x in body.get('inner', []):
            if 'kind' in x: add(x)
        out = ''
        default = None
        conds = []
        for gi, (labs, st) in enumerate(groups):
            brk = [x for x in st if x['kind'] == 'BreakStmt']
            if brk: st = st[:st.index(brk[0])]; full = st + rest
            elif any(self.terminates(x) for x in st): full = st
            elif gi == len(groups) - 1: full = st + rest
            else: uns('switch fall-through', s)
            if any(self.has_kind(x, ('BreakStmt',), ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt', 'SwitchStmt')) for x in st): uns('nested break in switch', s)
            t = self.tail_sub(full, env, mode)
            if None in labs: default = t
            else:
                cs = ' || '.join('%s = %s' % (v, self.rv(l, env)[0]) for l in labs)
                conds.append((cs, t))
        if default is None: default = self.tail_sub(rest, env, mode)
        for cs, t in reversed(conds):
            default = 'if %s then begin %s end else begin %s end' % (cs, t, default)
        return default

    # ------------------------------------------------------------ loops
    def loop(self, s, env, rm):
        cl = self.const_loop(s)
        if cl == 'never': return
        if cl == 'once' and not self.has_kind(s['inner'][0], ('BreakStmt', 'ContinueStmt'), ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt', 'SwitchStmt')):
            self.stmt(s['inner'][0], env, rm); return
        # dry run: which variables does one iteration write?
        if True:
            saved = (list(self.buf), dict(self.names), self.tmp, self.effects, list(self.writes), self.loopno, self.depth,
                     set(self.exc), dict(self.callee_decl), set(self.inlined), self.can_throw, self.div)
            self.dry += 1
            self.writes = []
            e = dict(env)
            self.loop_real(s, e, rm, None)
            writes = self.writes
            self.dry -= 1
            (self.buf, self.names, self.tmp, self.effects, _, self.loopno, self.depth, self.exc, self.callee_decl, self.inlined, self.can_throw, self.div) = saved
            self.writes = saved[4]
        self.loop_real(s, env, rm, writes)

    def loop_real(self, s, env, rm, writes):
        k = s['kind']
        env = dict(env)
        idx = self.loopno
        self.loopno += 1
        counter = None
        hidden = None
        if k == 'ForStmt':
            init, _, cond, inc, body = (s['inner'] + [None] * 5)[:5]
            outer = len(self.buf)
            if init and 'kind' in init: self.stmt(init, env)
            if cond is not None and 'kind' not in cond: cond = None
            if inc is not None and 'kind' not in inc: inc = None
        elif k == 'WhileStmt':
            if s.get('hasVar'): uns('while with a declaration', s)
            cond, body = s['inner'][0], s['inner'][1]; inc = None
        elif k == 'DoStmt':
            body, cond = s['inner'][0], s['inner'][1]; inc = None
        else:
            # range-for over a vector (or the entries of a map)
            parts = s['inner']
            rangedecl = parts[1]['inner'][0]
            loopvar = parts[6]['inner'][0]; body = parts[7]
            rinit = [x for x in rangedecl.get('inner', []) if 'kind' in x][0]
            rq = rangedecl['type']['qualType']
            lv = self.stable(self.lval(rinit, env))
            T = lv.typ if lv.typ[0] != 'ptr' else lv.typ[1]
            if T[0] == 'umap':
                self.need(T); self.used.add('E' + tname(T))
                seq = self.bind('E%s.entries (%s)' % (tname(T), self.read(lv)), 'ents')
                lv = LV(('val', seq), [], ('entries', T)); hmod = 'V' + tname(T) + '_entry'; hET = ('entry', T)
                hmod = 'E' + tname(T)
            elif T[0] == 'omap':
                self.need(T); hmod = tname(T); hET = ('entry', T)
            elif T[0] == 'vec':
                self.need(T); hmod = tname(T); hET = T[1]
            else: uns('range-for over %s' % (T,), s)
            if lv.root[0] == 'val' and not re.match(r'^\w+$', lv.root[1]):
                lv = LV(('val', self.bind(lv.root[1], 'rng')), lv.accs, lv.typ)
            hidden = self.fresh('i_' + loopvar.get('name', 'x'))
            self.emit('let %s = ref 0 in' % hidden)
            self.declare_var(hidden, '$hidden%d' % idx, ('int',), env)
            cond = inc = None
        # contract for this loop
        spec = self.con.loops[idx] if idx < len(self.con.loops) else None
        if spec is None: uns('loop number %d of %s has no invariant in the contract' % (idx + 1, self.con.qual), s)
        lines_pre = []
        self.exc.add(('Brk', '')) if False else None
        has_brk = self.has_kind(body, ('BreakStmt',), ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt', 'SwitchStmt'))
        has_cnt = self.has_kind(body, ('ContinueStmt',), ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'))
        # snapshots for automatic frame invariants
        auto = []
        if writes is not None:
            auto = self.auto_frame(writes, env)
        # names
        holes = self.loop_holes(spec, env, writes, hidden, idx)
        inv = list(auto)
        if hidden:
            inv.append('0 <= !%s <= %s.length (%s)' % (hidden, hmod, self.read(lv)))
        for t in spec.get('inv', []):
            if isinstance(t, tuple): inv.append('[@expl:loop invariant: %s] (%s)' % (t[0], self.subst_with(t[1], holes)))
            else: inv.append(self.subst_with(t, holes))
        var = spec.get('variant')
        if hidden and (var is None or var == 'auto' or '$h' in var or spec.get('range_variant', True)) :
            vt = '%s.length (%s) - !%s' % (hmod, self.read(lv), hidden)
        elif var: vt = self.subst_with(var, holes)
        else: vt = None; self.div = True
        if spec.get('before'): self.hint(spec['before'], holes)
        # loop body text
        def mk():
            e = dict(env)
            if hidden:
                it = LV(lv.root, lv.accs, ('vec', hET) if hET[0] != 'entry' else T)
                elem = lv.ext(('i', hmod, '!' + hidden), hET)
                ix = self.fresh('ix'); self.emit('let %s = !%s in' % (ix, hidden))
                elem = lv.ext(('i', hmod, ix), hET)
                lt = loopvar['type']; lq = lt.get('desugaredQualType', lt['qualType'])
                LT = parse_type(lq)
                nm = loopvar.get('name', 'x')
                if lq.strip().endswith('&'):
                    e[loopvar['id']] = elem
                    v = dict(e.get('$vars', {})); v[nm] = (self.read(elem), hET, False); e['$vars'] = v
                else:
                    w = self.fresh(nm)
                    val = self.read(elem)
                    if hET[0] == 'cls':
                        # copy construction through the class's own copy constructor
                        val = self.copy_value(val, hET, e)
                    self.emit('let %s = ref (%s) in' % (w, val))
                    e[loopvar['id']] = LV(('ref', w), [], hET if hET[0] == 'entry' else LT if LT[0] not in ('opaque',) else hET)
                    self.declare_var(w, nm, hET, e)
            if spec.get('body_start'):
                self.hint(spec['body_start'], {**holes, **{k2: (v2[0], v2[0]) for k2, v2 in e.get('$vars', {}).items() if k2 not in holes}})
            bt_env = e
            if has_cnt:
                self.exc.add(('Cnt', ''))
                t = self.stmt_block(body, e, rm)
                self.emit('(try %s with Cnt -> () end);' % t)
            else:
                if body['kind'] == 'CompoundStmt': self.stmts(body.get('inner', []), e, rm)
                else: self.stmt(body, e, rm)
            if spec.get('body_end'):
                self.emit(self.subst_with(spec['body_end'], {**holes, **{k2: (v2[0], v2[0]) for k2, v2 in e.get('$vars', {}).items() if k2 not in holes}}))
            if inc is not None: self.rv_discard(inc, e)
            if hidden: 
                self.emit('%s := !%s + 1;' % (hidden, hidden)); self.writes.append((hidden, (), None)); self.effects += 1
        invt = ' '.join('invariant { %s }' % i for i in inv)
        vtt = ' variant { %s }' % vt if vt else ''
        if hidden: 
            ctext = '!%s < %s.length (%s)' % (hidden, hmod, self.read(lv)); clines = []
        elif cond is not None:
            clines, ctext = self.sub(lambda: self.boolv(cond, env))
        else: clines, ctext = [], 'true'
        if k == 'DoStmt':
            # do B while (c)  ==  while true { B; if !c break }
            def mk2():
                mk()
                cl, ct = self.sub(lambda: self.boolv(cond, env))
                for l in cl: self.emit(l)
                self.emit('(if not %s then raise Brk);' % ct)
            self.exc.add(('Brk', ''))
            lines, _ = self.sub(mk2)
            text = '(try while true do %s%s %s () done with Brk -> () end);' % (invt, vtt, ' '.join(lines))
        else:
            lines, _ = self.sub(mk)
            if clines:
                self.exc.add(('Brk', ''))
                text = '(try while true do %s%s %s (if not %s then raise Brk); %s () done with Brk -> () end);' % (invt, vtt, ' '.join(clines), ctext, ' '.join(lines))
            else:
                text = 'while %s do %s%s %s () done;' % (ctext, invt, vtt, ' '.join(lines))
                if has_brk:
                    self.exc.add(('Brk', ''))
                    text = '(try %s () with Brk -> () end);' % text
        self.emit(text)
        if spec.get('after'): self.hint(spec['after'], holes)

    def copy_value(self, val, T, env):
        q = T[1] + '::' + T[1].split('::')[-1].split('<')[0]
        for f in self.tu.by_qual.get(q, []):
            if f.kind == 'ctor' and f.body is not None and not f.implicit and len(f.params) == 1:
                P = parse_type(f.params[0]['type'].get('desugaredQualType', f.params[0]['type']['qualType']))
                if P == T:
                    src = LV(('val', self.bind(val, 'cp')), [], T)
                    con = self.contracts.get(f.mangled)
                    if con is not None and f.qual not in self.con.inline_calls:
                        self.callee_note(con)
                        r = self.fresh('r')
                        self.emit('let %s = c_%s %s in' % (r, con.name, src.root[1]))
                        return r
                    self.enter(f, None)
                    e2 = {f.params[0]['id']: src}
                    name = self.fresh('obj')
                    lv = self.ctor_init(f, e2, name)
                    e2['this'] = lv
                    self.inline_body(f, e2, ('void',))
                    self.leave()
                    return '!' + name
        return val

    def auto_frame(self, writes, env):
        """field-wise frame invariants for record variables written only in part"""
        by = {}
        types = {}
        for r, pref, lv in writes:
            by.setdefault(r, set()).add(pref)
            if lv is not None and lv.root == ('ref', r):
                pass
        out = []
        known = {}
        for b in list(env.values()):
            if isinstance(b, LV) and b.root[0] == 'ref' and not b.accs: known[b.root[1]] = b.typ
        for r, prefs in sorted(by.items()):
            if () in prefs or r not in known: continue
            T = known[r]
            if T[0] == 'ptr': T = T[1]
            if T[0] != 'cls': continue
            snap = self.fresh('snap')
            self.emit('let %s = !%s in' % (snap, r))
            def rec(T, a, b, pfx):
                c = self.tu.classes[T[1]]
                nm = tname(T).lower()
                fl = [('%s_b_%s' % (nm, tname(('cls', x)).lower()), ('cls', x)) for x in c.bases if not self.empty_class(('cls', x))] + \
                     [('%s_%s' % (nm, f), t) for f, t, _, _ in c.fields]
                for fn_, t in fl:
                    p2 = pfx + (fn_,)
                    if p2 in prefs: continue
                    if any(p[:len(p2)] == p2 for p in prefs):
                        if t[0] == 'cls': rec(t, '(%s).%s' % (a, fn_), '(%s).%s' % (b, fn_), p2)
                        if t[0] == 'ptr' and t[1][0] in ('real', 'int'):
                            # an array from malloc whose elements are written stays where it is
                            k = 'c_' + t[1][0]
                            out.append('(%s).%s.%s_kind = (%s).%s.%s_kind' % (a, fn_, k, b, fn_, k))
                            out.append('V%s.length (%s).%s.%s_data = V%s.length (%s).%s.%s_data' % (t[1][0].capitalize(), a, fn_, k, t[1][0].capitalize(), b, fn_, k))
                        continue
                    out.append('(%s).%s = (%s).%s' % (a, fn_, b, fn_))
            rec(T, '!' + r, snap, ())
        return out

    def loop_holes(self, spec, env, writes, hidden, idx):
        """bind the names used in the loop's contract to variables in scope"""
        h = self.holes_env(env)
        vars_ = self.scope_vars(env)
        need = spec.get('vars', {})
        texts = [t[1] if isinstance(t, tuple) else t for t in spec.get('inv', [])] + [spec.get('variant') or '', spec.get('body_end') or '', spec.get('body_start') or '', spec.get('after') or '', spec.get('before') or '']
        used = set()
        for t in texts:
            if isinstance(t, (list, tuple)): t = ' '.join(t)
            for m in re.finditer(r'\{(old )?([A-Za-z_]\w*)\}', t): used.add(m.group(2))
        wr = {w[0] for w in (writes or [])}
        taken = set()
        for n in need:
            v = vars_.get(n)
            if v is not None: taken.add(v[0])
        for n, spec_t in need.items():
            v = vars_.get(n)
            ok = v is not None and self.tmatch(v[1], spec_t)
            if n == '$hidden': continue
            if ok and not (hidden and spec_t == 'counter'):
                h[n] = (v[0], h[n][1] if n in h and self.con and n in self.con.params else v[0]); continue
            # the counter of a range-for
            if spec_t == 'counter' and hidden:
                h[n] = ('!' + hidden, '!' + hidden); continue
            cand = [x for nm, x in vars_.items() if x[2] and x[0][1:] in wr and self.tmatch(x[1], spec_t) and x[0] not in taken]
            if writes is None and not cand:
                cand = [x for nm, x in vars_.items() if x[2] and self.tmatch(x[1], spec_t)]
            if not cand:
                cand = [x for nm, x in vars_.items() if self.tmatch(x[1], spec_t) and x[0] not in taken]
            if not cand:
                if self.dry: h[n] = ('DRY', 'DRY'); continue
                raise Unsupported('no variable for %s (%s) in loop %d of %s' % (n, spec_t, idx + 1, self.con.qual))
            pick = cand[-1] if spec_t == 'counter' else cand[0]
            h[n] = (pick[0], pick[0]); taken.add(pick[0])
        # variables bound in enclosing loops of the same contract
        for n in used:
            if n not in h:
                o = self.outer_holes.get(n) if hasattr(self, 'outer_holes') else None
                if o: h[n] = o
                elif self.dry: h[n] = ('DRY', 'DRY')
        if not hasattr(self, 'outer_holes') or self.outer_fn is not self.con:
            self.outer_holes = {}; self.outer_fn = self.con
        for n in need:
            if n in h: self.outer_holes[n] = h[n]
        return h

    def tmatch(self, T, spec):
        if spec in ('counter', 'int'): return T[0] == 'int'
        if spec == 'real': return T[0] == 'real'
        if spec == 'bool': return T[0] == 'bool'
        return tname(T if T[0] != 'ptr' else T[1]) == spec

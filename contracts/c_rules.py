from ctl import C, L
CONTRACTS = [
  C('Functor::apply', 'x', mod='self', uses='Rule', trusted=True, note='virtual dispatch of a rule (module Rules states which method runs)',
    ens=['{result} = fapply {old self} {x}', '{self} = fnext {old self} {x}']),
]
def rule(cls, ens, req=(), mod='self', new=None, newens=(), newreq=(), **kw):
    n = cls.lower()
    CONTRACTS.append(C(cls + '::apply', 'x', name=n + '_apply', mod=mod, uses='Rule Rules', req=list(req), ens=list(ens), **kw))
    if new is not None: CONTRACTS.append(C(cls + '::' + cls, new, name=n + '_new', uses='Rule Rules', req=list(newreq), ens=list(newens)))
def fac(q, params, cls, ens, req=()):
    CONTRACTS.append(C(q, params, name=q.replace('::', '_').lower(), uses='Rule Rules', req=list(req),
        ens=[('the rule it names', 'is_%s {result}' % cls)] + [(a, b.replace('S.', '(as_%s {result}).%s_' % (cls, cls)).replace('S!', '(as_%s {result})' % cls)) for a, b in ens]))
same = ('unchanged', '{self} = {old self}')
rule('Constant', [('returns its argument', '{result} = {x}')], mod='')
rule('Uniform', [('scales its argument', '{result} = {x} *. {old self}.uniform_delta'), same], new='delta', newens=[('parameter', '{self}.uniform_delta = {delta}')])
for c in ('Sine', 'Cosine'):
    n = c.lower()
    rule(c, [('amplitude times the curve', '{result} = %s_val {old self} {x}' % n), same], new='a f p', newens=[('parameters', '{self}.N_amplitude = {a} /\\ {self}.N_frecuency = {f} /\\ {self}.N_phase = {p}'.replace('N', n))])
rule('DisplaceDelta', [('every other point is displaced', 'displace_step {old self} {x} {result} {self}')], new='delta', newens=[('starts with a displacement', '{self}.displacedelta_delta = {delta} /\\ not {self}.displacedelta_alternating')])
rule('ConstantAlternating', [('rows alternate', 'ca_step {old self} {x} {result} {self}')], req=[('visited places in step', 'ca_ok {self}')], new='',
     newens=[('no row visited', 'ca_ok {self} /\\ VReal.length (cav {self}) = 0 /\\ not {self}.constantalternating_alternating')])
rule('Random_Double', [('within the range', 'in_range {result} {old self}.random_double_min {old self}.random_double_max'), same], req=[('valid range', 'rd_ok {self}')],
     new='min max', newreq=[('range is not empty', '{min} <=. {max}')], newens=[('parameters', '{self}.random_double_min = {min} /\\ {self}.random_double_max = {max}'), ('valid range', 'rd_ok {self}')])
RI = ('within int', '-. 2147483648.0 <=. {min} /\\ {max} <=. 2147483647.0')
rule('Random_Integer', [('within the range', 'in_range {result} {old self}.random_integer_min {old self}.random_integer_max'), same], req=[('valid range', 'ri_ok {self}')],
     new='min max', newreq=[('an integer in the range', 'rceil {min} <= rfloor {max}'), RI], newens=[('parameters', '{self}.random_integer_min = {min} /\\ {self}.random_integer_max = {max}'), ('valid range', 'ri_ok {self}')])
for c, k, r in (('RandomDoubleNoise', 'dn', 'rdn'), ('RandomIntegerNoise', 'in', 'rin')):
    n = c.lower()
    rule(c, [('displaced by at most the maximal noise', 'noisy {result} (fapply {old self}.%s_f {x}) (%s_max {old self})' % (n, k)), ('only the underlying rule advances', '{self} = { {old self} with %s_f = fnext {old self}.%s_f {x}}' % (n, n))],
      req=[('valid range', r + '_ok {self}')], new='f min max', newreq=[('range is not empty', '{min} <=. {max}')] + ([('within int', RI[1])] if k == 'in' else []),
      newens=[('parameters', '{self}.N_min = {min} /\\ {self}.N_max = {max} /\\ {self}.N_f = {f}'.replace('N', n)), ('valid range', r + '_ok {self}')])
fac('functions::constant', '', 'uniform', [('returns its argument', 'S.delta = 1.0')])
fac('functions::uniform', 'delta', 'uniform', [('parameter', 'S.delta = {delta}')])
fac('functions::sine', 'amplitude frecuency phase', 'sine', [('parameters', 'S.amplitude = {amplitude} /\\ S.frecuency = {frecuency} /\\ S.phase = {phase}')])
fac('functions::cosine', 'amplitude frecuency phase', 'cosine', [('parameters', 'S.amplitude = {amplitude} /\\ S.frecuency = {frecuency} /\\ S.phase = {phase}')])
fac('functions::displace_points', 'delta', 'displacedelta', [('starts with a displacement', 'S.delta = {delta} /\\ not S.alternating')])
fac('functions::constantAlternating', '', 'constantalternating', [('no row visited', 'ca_ok S! /\\ VReal.length (cav S!) = 0 /\\ not S.alternating')])
fac('functions::random_double', 'min max', 'random_double', [('parameters', 'S.min = {min} /\\ S.max = {max} /\\ rd_ok S!')], req=[('range is not empty', '{min} <=. {max}')])
fac('functions::random_integer', 'min max', 'random_integer', [('parameters', 'S.min = {min} /\\ S.max = {max} /\\ ri_ok S!')], req=[('an integer in the range', 'rceil {min} <= rfloor {max}'), RI])
fac('noise::random_double_noise', 'f min max', 'randomdoublenoise', [('parameters', 'S.f = {f} /\\ S.min = {min} /\\ S.max = {max} /\\ rdn_ok S!')], req=[('range is not empty', '{min} <=. {max}')])
fac('noise::random_integer_noise', 'f min max', 'randomintegernoise', [('parameters', 'S.f = {f} /\\ S.min = {min} /\\ S.max = {max} /\\ rin_ok S!')], req=[('range is not empty', '{min} <=. {max}'), RI])
PG = '{self}.pointgenerator_'
BASE = '(VPoint.length {old vector})'
NN = ' {old self} {box} {nX} {nY} '
CONTRACTS += [
  C('PointGenerator::PointGenerator', 'lX lY', sig=['Functor *', 'Functor *'], name='pointgenerator_two', uses='Rule Grid', ens=[('both rules kept', PG + 'lX = {lX} /\\ ' + PG + 'lY = {lY}'), ('both coordinates by their rules', PG + 'variable = 2')]),
  C('PointGenerator::PointGenerator', 'l variable', sig=['Functor *', 'functions::independent_variable'], name='pointgenerator_one', uses='Rule Grid', req=[('an axis', '0 <= {variable} <= 2')],
    ens=[('axis kept', PG + 'variable = {variable}'), ('the rule displaces the dependent coordinate', 'if {variable} = 0 then ' + PG + 'lY = {l} else ' + PG + 'lX = {l}'), ('an axis is required', '{variable} <> 2')], throws='{variable} = 2'),
  C('PointGenerator::result', 'x y', mod='self', uses='Rule Grid', req=[('valid axis', 'gen_ok {self}')], ens=[('point of the cell', 'gen_point {result} {old self} {x} {y}'), ('rules advanced', '{self} = gen_next {old self} {x} {y}')]),
  C('PointGenerator::generate', 'vector box nX nY', mod='self vector', uses='Rule Grid Box', req=[('valid axis', 'gen_ok {self}')],
    ens=[('as many points as cells', 'VPoint.length {vector} = ' + BASE + ' + (if {nX} > 0 /\\ {nY} > 0 then {nX} * {nY} else 0)'),
         ('points already listed are kept', 'forall k: int. 0 <= k < ' + BASE + ' -> VPoint.get {vector} k = VPoint.get {old vector} k'),
         ('rows in order, every cell by the rule', 'rows_done {vector} ' + BASE + NN + '{nY}')],
    loops=[L('i:counter', before=['?assert { forall k: int [gx {box} {nX} k]. gx {box} {nX} k = bx0 {box} +. rofi k *. {dX} };', '?assert { forall k: int [gy {box} {nY} k]. gy {box} {nY} k = by0 {box} +. rofi k *. {dY} };'], inv=['0 <= {i}', ('i in range', '{i} <= {nY} \\/ {nY} < 0 /\\ {i} = 0'), ('points so far', 'VPoint.length {vector} = ' + BASE + ' + (if {nX} > 0 then {i} * {nX} else 0)'),
             ('kept', 'forall k: int. 0 <= k < ' + BASE + ' -> VPoint.get {vector} k = VPoint.get {old vector} k'),
             ('rows so far', 'rows_done {vector} ' + BASE + NN + '{i}'), ('rules advanced', '{self} = gen_at' + NN + '{i} 0'), ('valid axis', 'gen_ok {self}')], variant='{nY} - {i}'),
           L('j:counter', inv=['0 <= {j}', ('j in range', '{j} <= {nX} \\/ {nX} < 0 /\\ {j} = 0'), ('points so far', 'VPoint.length {vector} = ' + BASE + ' + (if {nX} > 0 then {i} * {nX} else 0) + {j}'),
             ('kept', 'forall k: int. 0 <= k < ' + BASE + ' -> VPoint.get {vector} k = VPoint.get {old vector} k'),
             ('rows so far', 'rows_done {vector} ' + BASE + NN + '{i}'), ('this row so far', 'row_done {vector} ' + BASE + NN + '{i} {j}'), ('rules advanced', '{self} = gen_at' + NN + '{i} {j}'), ('valid axis', 'gen_ok {self}')], variant='{nX} - {j}')]),
]

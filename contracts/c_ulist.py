from ctl import C, L
CONTRACTS = []
for q, T, good, same, ul in (('Point', 'Point', 'good_pt', 'peq', 'uniquelist_point'), ('int', 'Int', 'any_int', 'same_int', 'uniquelist_int'), ('double', 'Real', 'any_real', 'same_real', 'uniquelist_double')):
    N = 'ul_%s_' % T.lower(); Q = 'UniqueList<%s>::' % q
    V = 'V%s' % T; S = '{self}.%s_list' % ul; S0 = '{old self}.%s_list' % ul; M = '{self}.%s_map' % ul
    ord_ = {'Point': 'OrdPoint', 'Int': 'OrdInt', 'Real': 'OrdReal'}[T]
    MM = 'M_%s_Int' % T
    U = 'UL_%s %s VInt %s %s O%s' % (T, ord_, V, MM, MM)
    ok = ('list and index agree', 'ul_ok {self}'); okp = ('keeps list and index in step', 'ul_ok {self}')
    has = '(V.posn S x < V.length S)'
    rebuild = [L('i:counter', inv=['0 <= {i} <= %s.length %s' % (V, S), ('index covers the first elements', 'O%s.ok %s /\\ found %s %s {i}' % (MM, M, M, S)),
                 ('indexed positions', 'forall j: int. 0 <= j < MM.length {MAP} -> 0 <= (MM.get {MAP} j).mm_second < {i} /\\ SAME (V.get SEQ ((MM.get {MAP} j).mm_second)) ((MM.get {MAP} j).mm_first)'.replace('mm_', MM.lower() + '_').replace('MM', MM).replace('{MAP}', M).replace('V.', V + '.').replace('SEQ', S).replace('SAME', same))],
               variant='%s.length %s - {i}' % (V, S))]
    CONTRACTS += [
      C(Q + 'UniqueList', '', sig=[], name=N + 'new', uses=U, ens=[('empty', 'ul_ok {self} /\\ %s.length %s = 0' % (V, S))]),
      C(Q + 'UniqueList', 'other', sig=['const UniqueList<%s> &' % q], name=N + 'copy', uses=U, ens=[('same elements', '%s = {other}.%s_list' % (S, ul)), ('same index', '%s = {other}.%s_map' % (M, ul))]),
      C(Q + 'push_back', 'item', name=N + 'push_back', mod='self', uses=U, req=[ok, ('element well separated', good + ' {item}')],
        ens=[okp, ('new elements are appended, stored ones not', '%s = add %s {item}' % (S, S0)), ('position of the element', '{result} = posn %s {item}' % S0),
             ('element found at the position', '0 <= {result} < %s.length %s /\\ %s (%s.get %s {result}) {item}' % (V, S, same, V, S))]),
      C(Q + 'pop_front', '', name=N + 'pop_front', mod='self', uses=U, req=[ok, ('not empty', '%s.length %s >= 1' % (V, S))], ens=[okp, ('exactly the first element removed', '%s = %s.erase %s 0' % (S, V, S0))], loops=rebuild),
      C(Q + 'size', '', name=N + 'size', uses=U, ens=[('number of elements', '{result} = %s.length %s' % (V, S))]),
      C(Q + 'indexOf', 'elem', name=N + 'indexof', uses=U, ens=[('position or -1', '{result} = if posn %s {elem} < %s.length %s then posn %s {elem} else -1' % (S, V, S, S))]),
      C(Q + 'contains', 'elem', name=N + 'contains', uses=U, req=[ok, ('element well separated', good + ' {elem}')], ens=[('membership', '{result} <-> posn %s {elem} < %s.length %s' % (S, V, S))]),
      C(Q + 'clear', '', name=N + 'clear', mod='self', uses=U, ens=[('empty', 'ul_ok {self} /\\ %s.length %s = 0' % (V, S))]),
      C(Q + 'delete_element', 'item', name=N + 'delete', mod='self', uses=U, req=[ok, ('element well separated', good + ' {item}')],
        ens=[okp, ('exactly the element removed', '%s = if posn %s {item} < %s.length %s then %s.erase %s (posn %s {item}) else %s' % (S, S0, V, S0, V, S0, S0, S0))], loops=rebuild),
      C(Q + 'push_list', 'list', sig=['std::vector<%s> &' % q], name=N + 'push_vec', mod='self', uses=U, req=[ok, ('elements well separated', 'goods {list}')],
        ens=[okp, ('all elements appended without repetition', '%s = addall %s {list} (%s.length {list})' % (S, S0, V)), ('one position per element', 'VInt.length {result} = %s.length {list}' % V),
             ('positions in order', 'forall k: int. 0 <= k < %s.length {list} -> VInt.get {result} k = posn (addall %s {list} k) (%s.get {list} k)' % (V, S0, V)),
             ('each element at its position', 'forall k: int. 0 <= k < %s.length {list} -> 0 <= VInt.get {result} k < %s.length %s /\\ %s (%s.get %s (VInt.get {result} k)) (%s.get {list} k)' % (V, V, S, same, V, S, V)),
             ('stored elements stay', 'forall k: int. 0 <= k < %s.length %s -> k < %s.length %s /\\ %s.get %s k = %s.get %s k' % (V, S0, V, S, V, S, V, S0))],
        loops=[L('i:counter index:VInt', inv=['0 <= {i} <= %s.length {list}' % V, okp, ('appended so far', '%s = addall %s {list} {i}' % (S, S0)), 'VInt.length {index} = {i}',
             ('positions so far', 'forall k: int. 0 <= k < {i} -> VInt.get {index} k = posn (addall %s {list} k) (%s.get {list} k)' % (S0, V)),
             ('found so far', 'forall k: int. 0 <= k < {i} -> 0 <= VInt.get {index} k < %s.length %s /\\ %s (%s.get %s (VInt.get {index} k)) (%s.get {list} k)' % (V, S, same, V, S, V)),
             ('stored elements stay', '%s.length %s <= %s.length %s /\\ forall k: int. 0 <= k < %s.length %s -> %s.get %s k = %s.get %s k' % (V, S0, V, S, V, S0, V, S, V, S0))],
             variant='%s.length {list} - {i}' % V)]),
      C(Q + 'push_list', 'list', sig=['UniqueList<%s> &' % q], name=N + 'push_ul', mod='self', uses=U, req=[ok, ('elements well separated', 'goods {list}.LST')],
        ens=[okp, ('all elements appended without repetition', '%s = addall %s {list}.LST (%s.length {list}.LST)' % (S, S0, V)), ('one position per element', 'VInt.length {result} = %s.length {list}.LST' % V),
             ('positions in order', 'forall k: int. 0 <= k < %s.length {list}.LST -> VInt.get {result} k = posn (addall %s {list}.LST k) (%s.get {list}.LST k)' % (V, S0, V)),
             ('each element at its position', 'forall k: int. 0 <= k < %s.length {list}.LST -> 0 <= VInt.get {result} k < %s.length %s /\\ %s (%s.get %s (VInt.get {result} k)) (%s.get {list}.LST k)' % (V, V, S, same, V, S, V)),
             ('stored elements stay', 'forall k: int. 0 <= k < %s.length %s -> k < %s.length %s /\\ %s.get %s k = %s.get %s k' % (V, S0, V, S, V, S, V, S0))],
        loops=[L('i:counter index:VInt', inv=['0 <= {i} <= %s.length {list}.LST' % V, okp, ('appended so far', '%s = addall %s {list}.LST {i}' % (S, S0)), 'VInt.length {index} = {i}',
             ('positions so far', 'forall k: int. 0 <= k < {i} -> VInt.get {index} k = posn (addall %s {list}.LST k) (%s.get {list}.LST k)' % (S0, V)),
             ('found so far', 'forall k: int. 0 <= k < {i} -> 0 <= VInt.get {index} k < %s.length %s /\\ %s (%s.get %s (VInt.get {index} k)) (%s.get {list}.LST k)' % (V, S, same, V, S, V)),
             ('stored elements stay', '%s.length %s <= %s.length %s /\\ forall k: int. 0 <= k < %s.length %s -> %s.get %s k = %s.get %s k' % (V, S0, V, S, V, S0, V, S, V, S0))],
             variant='%s.length {list}.LST - {i}' % V)]),
    ]

for c in CONTRACTS:
    if 'push_ul' in c.name:
        ul = {'ul_point_push_ul': 'uniquelist_point', 'ul_int_push_ul': 'uniquelist_int', 'ul_real_push_ul': 'uniquelist_double'}[c.name]
        f = lambda r: tuple(x.replace('LST', ul + '_list') for x in r) if isinstance(r, tuple) else r.replace('LST', ul + '_list')
        c.requires = [f(r) for r in c.requires]; c.ensures = [f(r) for r in c.ensures]
        for l in c.loops: l['inv'] = [f(r) for r in l['inv']]; l['variant'] = f(l['variant'])

"""developer driver: proves the lemmas of spec modules: python3 tool/lem.py MODULE..."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from concurrent.futures import ThreadPoolExecutor
import astload, verify, dev
os.environ.setdefault('VERIF_DEVCACHE', '/tmp/vcache')
w = '/tmp/devw'; os.makedirs(w, exist_ok=True)
v = verify.Verifier(astload.TU(astload.dump_ast(os.environ.get('REPO', '/repo'), w + '/ast')), dev.contracts(), w)
for m in sys.argv[1:]:
    d = w + '/lem_' + m; os.makedirs(d, exist_ok=True)
    v.tr.used = set()
    open(d + '/m.mlw', 'w').write('\n'.join(v.resolve([m])))
    obs = v.gen_file(d + '/m.mlw', m, m, d)
    with ThreadPoolExecutor(int(os.environ.get('J', '8'))) as ex: list(ex.map(v.solve, obs))
    bad = [o for o in obs if o.status != 'proved']
    print('ok' if not bad else 'XX', m, len(obs) - len(bad), len(obs), 'max %.1f' % max([o.time for o in obs] + [0]))
    for o in bad: print('    ', o.label, o.loc, o.path, o.solver)

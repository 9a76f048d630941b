"""developer driver: python3 tool/dev.py <name-substring> ... proves matching contracts"""
import sys, os, time, pickle
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from concurrent.futures import ThreadPoolExecutor
import astload, verify, importlib, glob
def contracts():
    sys.path.insert(0, verify.ROOT + '/contracts')
    cs = []
    for p in sorted(glob.glob(verify.ROOT + '/contracts/c_*.py')):
        m = importlib.import_module(os.path.basename(p)[:-3])
        cs += m.CONTRACTS
    return cs
def main():
    repo = os.environ.get('REPO', '/repo')
    os.environ.setdefault('VERIF_DEVCACHE', '/tmp/vcache')
    w = '/tmp/devw'; os.makedirs(w, exist_ok=True)
    ast = astload.dump_ast(repo, w + '/ast')
    tu = astload.TU(ast)
    v = verify.Verifier(tu, contracts(), w)
    for c, why in v.tr.missing: print('MISSING', c.qual, c.sig, why)
    pats = [a for a in sys.argv[1:] if not a.startswith('-')]
    jobs = []
    sel = [c for c in v.tr.contracts.values() if not pats or any(p in c.name for p in pats) ]
    for c in sel:
        if c.trusted: continue
        try:
            t, r = v.assemble(c)
            obs = v.gen(c, t)
            if '--smoke' in sys.argv:
                so = [o for o in v.gen(c, v.smoke_text(t), '_smoke') if o.label.lower() == 'smoke']
                ok = any(v.run_solver('z3', o.path, 2) != 'unsat' for o in so)
                print(('   smoke ok ' if ok else '!! VACUOUS ') + c.name, len(so))
        except astload.ExtractError as e:
            print('!!', c.qual, type(e).__name__, e); continue
        jobs.append((c, r, obs))
    with ThreadPoolExecutor(int(os.environ.get('J', '8'))) as ex:
        q = [[('z3', 3), ('cvc5', 3)]] if '--quick' in sys.argv else None
        list(ex.map(lambda o: v.solve(o, q), [o for _, _, obs in jobs for o in obs]))
    for c, r, obs in jobs:
        bad = [o for o in obs if o.status != 'proved']
        print('%s %s: %d/%d max %.1fs inl=%s' % ('ok' if not bad else 'XX', c.name, len(obs) - len(bad), len(obs), max([o.time for o in obs] + [0]), ','.join(r['inlined'])))
        for o in bad: print('     unproved:', o.label, o.loc, o.path, o.solver)
if __name__ == "__main__": main()

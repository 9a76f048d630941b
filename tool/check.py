"""check.py ID : decides property ID on /repo's current tree. Exit 0 held, 1 VIOLATION."""
import os, sys, time, json, shutil, tempfile, subprocess, glob, re, importlib, traceback, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts'))
from concurrent.futures import ThreadPoolExecutor
import astload, verify
from astload import ExtractError

ROOT = verify.ROOT
REPO = os.environ.get('VERIF_REPO', '/repo')

def load_contracts():
    cs = []
    for p in sorted(glob.glob(ROOT + '/contracts/c_*.py')):
        cs += importlib.import_module(os.path.basename(p)[:-3]).CONTRACTS
    return cs

# ------------------------------------------------------------------ harness
class Harness:
    """builds /repo's current sources and the property's replay harness, in scratch"""
    def __init__(self, pid, work):
        self.pid = pid; self.work = work; self.exe = None; self.err = None
        self.src = os.path.join(ROOT, 'harness', pid.lower() + '.cpp')
    def build(self):
        if not os.path.exists(self.src): self.err = 'no harness'; return
        d = os.path.join(self.work, 'hb'); os.makedirs(d, exist_ok=True)
        inc = ['-I%s/delynoi/include' % REPO, '-I%s/lib/utilities/include' % REPO, '-I' + os.path.join(ROOT, 'harness')]
        cx = ['g++', '-std=gnu++11', '-O1', '-g1', '-w', '-fno-access-control', '-fsanitize=address'] 
        jobs = []
        # a harness may have the library's sources compiled with a macro of its own (to look at a call it makes)
        m = re.match(r'// CXX (\S+)', open(self.src).read())
        if m: cx = cx + [m.group(1)]
        for s in sorted(glob.glob(REPO + '/delynoi/src/**/*.cpp', recursive=True) + glob.glob(REPO + '/lib/utilities/src/**/*.cpp', recursive=True)
                        + glob.glob(REPO + '/delynoi/include/**/*.cpp', recursive=True)):
            jobs.append((cx + inc + ['-c', s, '-o', os.path.join(d, re.sub(r'\W', '_', s) + '.o')], True))
        for s in sorted(glob.glob(REPO + '/delynoi/**/*.c', recursive=True)):
            jobs.append((['gcc', '-O1', '-w', '-DTRILIBRARY', '-DANSI_DECLARATORS', '-c', s, '-o', os.path.join(d, re.sub(r'\W', '_', s) + '.o')], True))
        for s in (self.src, os.path.join(ROOT, 'harness', 'h.cpp')):
            jobs.append(([x for x in cx if not m or x != m.group(1)] + inc + ['-c', s, '-o', os.path.join(d, 'H_' + os.path.basename(s) + '.o')], False))
        def run(j):
            r = subprocess.run(j[0], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return r.returncode, r.stdout, j
        with ThreadPoolExecutor(8) as ex: rs = list(ex.map(run, jobs))
        for rc, o, j in rs:
            if rc: self.err = 'compilation of %s failed: %s' % (j[0][-3], o[-1500:]); return
        exe = os.path.join(d, 'harness')
        r = subprocess.run(['g++', '-fsanitize=address', '-o', exe] + sorted(glob.glob(d + '/*.o')) + ['-lm', '-lpthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: self.err = 'link failed: ' + r.stdout[-1500:]; return
        self.exe = exe
    def run(self, secs, seed, case=None):
        out = os.path.join(self.work, 'h_%d.txt' % seed)
        cwd = os.path.join(self.work, 'hrun'); os.makedirs(cwd, exist_ok=True)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:hard_rss_limit_mb=4000:handle_abort=0:allocator_may_return_null=1', TMPDIR=cwd)
        try:
            subprocess.run([self.exe, out, str(secs), str(seed)] + ([str(case)] if case is not None else []), cwd=cwd, env=env, timeout=secs + 60, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        except subprocess.TimeoutExpired: pass
        txt = open(out, errors='replace').read() if os.path.exists(out) else ''
        m = re.search(r'cases (\d+) nontrivial (\d+)\nseed (\d+) case (\d+)\nmessage: (.*?)\n--- input\n(.*)', txt, re.S)
        if not m: return dict(failed=None, evals=0, nontrivial=0)
        errf = out + '.err'
        err = open(errf, errors='replace').read()[-3000:] if os.path.exists(errf) else ''
        return dict(failed=txt.startswith('FAILED'), evals=int(m.group(1)), nontrivial=int(m.group(2)), seed=int(m.group(3)), case=int(m.group(4)), message=m.group(5), input=m.group(6), err=err)

def known_findings(pid):
    """open findings: lines `finding: property=<id> match=<text in the failure message> :: description'"""
    out = []
    p = ROOT + '/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) :: (.*)', l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    import props
    prop = props.PROPS[pid]
    work = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    try:
        rc = run(pid, prop, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def run(pid, prop, tier, seed, work, t0):
    har = Harness(pid, work)
    ev = dict(property=pid, tier=tier, seed=seed, level='proof', coverage={}, assumptions=[], wall_s=0.0, violations=0)
    breaks = []       # functions that could not be brought to the verifier on this tree
    jobs = []         # (contract, translation, obligations)
    obs_lemma = []
    trusted = set(); funcs = []
    tu = None
    try:
        ast = astload.dump_ast(REPO, work + '/ast')
        tu = astload.TU(ast); del ast
    except ExtractError as e:
        breaks.append(('whole program', str(e)[:500]))
    v = None; smokes = []
    # quick conformance run of the harness while the solvers work
    hres = []
    def hrun():
        if har.exe:
            hres.append(har.run(prop.get('quick_s', 8) if tier == 'quick' else 120, seed))
    def found():
        f = any(h.get('failed') for h in hres)
        if f and v and not v.settled: v.settled = True; v.deadline = min(v.deadline or 1e18, time.time() + 75)      # the violation is settled by a failing input; name the failed obligations, without waiting for all of them
        return f
    hth = threading.Thread(target=lambda: (har.build(), hrun(), found())); hth.start()
    if tu is not None:
        v = verify.Verifier(tu, load_contracts(), work + '/vc'); v.deadline = t0 + 560
        byq = {}
        for c in v.tr.contracts.values(): byq.setdefault(c.name, c); byq.setdefault(c.qual, c)
        todo = []
        for r in prop['roots']:
            if r in byq: todo.append(byq[r])
            else: breaks.append((r, 'function not found in the current sources (removed, renamed or its signature changed)'))
        done = set()
        gen = []
        while todo:
            c = todo.pop(0)
            if c.name in done: continue
            done.add(c.name)
            if c.trusted:
                trusted.add('contract of %s assumed, not proved (%s)' % (c.qual, c.note)); continue
            try:
                t, r = v.assemble(c)
            except ExtractError as e:
                breaks.append((c.qual, str(e)[:400])); continue
            except (KeyError, IndexError, TypeError, AttributeError, RecursionError, ValueError, AssertionError) as e:
                breaks.append((c.qual, 'unsupported construct (%s: %s)' % (type(e).__name__, e))); continue
            gen.append((c, t, r))
            todo += r['calls']
        # obligations go to the solvers as soon as they are generated; every function is generated with an
        # unprovable postcondition added (label SMOKE), which must stay unprovable on some exit
        def one(x):
            c, t, r = x
            try: os_ = v.gen(c, v.smoke_text(t))
            except ExtractError as e: return (c, r, e, t, [], [])
            sm = [o for o in os_ if o.label.lower() == 'smoke']; os_ = [o for o in os_ if o.label.lower() != 'smoke']
            return (c, r, os_, t, sm, [sx.submit(v.solve, o) for o in os_] + [sx.submit(smoke, c, sm)])
        lk = threading.Lock()
        def gl(m):
            d = os.path.join(work, 'lem_' + m); os.makedirs(d, exist_ok=True)
            p = d + '/m.mlw'
            with lk: mods = v.resolve([m])
            open(p, 'w').write('\n'.join(mods))
            try: os_ = v.gen_file(p, m, m, d)
            except ExtractError as e: return e, []
            for o in os_: o.fn = 'lemmas of ' + m
            return os_, [sx.submit(v.solve, o) for o in os_]
        def smoke(c, sm):
            if not sm: return (c, 'no exit')
            for q in sm:
                if v.run_solver('z3', q.path, 1) != 'unsat': return (c, None)
            return (c, 'vacuous')
        names = set(prop.get('lemmas', []))
        usedm = set()
        for c, t, r in gen: usedm |= set(re.findall(r'^module (\w+)$', t, re.M))
        # lemmas of the specification modules in use
        lem = sorted(m for m in usedm | names if m in v.spec and re.search(r'\blemma\b|\bgoal\b|let rec', v.spec[m][0]))
        gen.sort(key=lambda x: -len(x[1]) if len(x[1]) > 110000 else 0)
        with ThreadPoolExecutor(7) as sx:
            waits = []
            with ThreadPoolExecutor(4) as ex:
                fl = [ex.submit(one, x) for x in gen]; gf = [ex.submit(gl, m) for m in lem]
                for f in fl:
                    c, r, o, t, sm, fs = f.result(); waits += fs
                    if isinstance(o, ExtractError): breaks.append((c.qual, str(o)[:400]))
                    else: jobs.append((c, r, o, t)); smokes.append(fs[-1])
                for f in gf:
                    o, fs = f.result(); waits += fs
                    if isinstance(o, ExtractError): breaks.append(('specification lemmas', str(o)[:400]))
                    else: obs_lemma += o
            for f in waits: f.result()
    allobs = [o for _, _, obs, _ in jobs for o in obs] + obs_lemma
    bad = [o for o in allobs if o.status != 'proved']
    hth.join()
    searched = False
    def search():
        for k in range(1, 4):
            if har.exe is None or found(): return
            hres.append(har.run(prop.get('search_s', 25), seed + 1000 * k))
        found()
    if (bad or breaks) and not found():
        searched = True
        # a longer search for a failing input, and a longer try on what is left
        sth = threading.Thread(target=search); sth.start()
        if bad:
            v.deadline = time.time() + 200
            with ThreadPoolExecutor(6) as ex: list(ex.map(lambda o: v.solve(o, v.LAST), sorted(bad, key=lambda o: o.time)))
            bad = [o for o in allobs if o.status != 'proved']
        sth.join()
    if v: v.stop = False; v.deadline = None
    # vacuity: an unprovable postcondition must stay unprovable
    vac = [] if found() else [f.result() for f in smokes]
    vac = [(c, w) for c, w in vac if w]
    if vac and not searched: search()
    for c, w in vac: breaks.append((c.qual, 'contract check is vacuous on this tree: ' + w))
    # witness search
    witness = next((h for h in hres if h.get('failed')), None)
    known = known_findings(pid)
    rc = 0
    rdir = os.path.join(ROOT, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, pid + '.txt')
    if os.path.exists(rp): os.remove(rp)
    for k, d in known: print('KNOWN-FINDING: property=%s %s' % (pid, d))
    for q, why in breaks: print('NOTE: %s not under proof on this tree: %s' % (q, why))
    for o in [o for o in bad if o.solver != 'not attempted']: print('UNDISCHARGED: %s: %s (%s; last answer %s)' % (o.fn, o.label, o.loc, o.solver))
    if har.err and har.err != 'no harness': print('NOTE: harness unavailable: ' + har.err[:800])
    if witness is not None:
        open(rp, 'w').write('property %s\nreplay: build as tool/check.py does, then harness OUT 1 %d %d\nfailure: %s\n--- input\n%s\n--- stderr\n%s\n--- undischarged obligations\n%s\n' % (
            pid, witness['seed'], witness['case'], witness['message'], witness['input'], witness['err'], '\n'.join('%s: %s' % (o.fn, o.label) for o in bad if o.solver != 'not attempted')))
        print('failing input: %s' % witness['message'])
        print('VIOLATION property=%s replay=%s' % (pid, rp)); rc = 1
    elif bad:
        txt = 'property %s\nno failing input found by the replay harness\n' % pid
        for o in bad:
            txt += 'obligation: %s: %s (%s)\nsolver answer: %s\n' % (o.fn, o.label, o.loc, o.solver)
        for o in bad[:3]: txt += '\n--- SMT-LIB of %s: %s\n%s\n' % (o.fn, o.label, open(o.path).read()[:20000])
        open(rp, 'w').write(txt)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp)); rc = 1
    # evidence
    solv = {}
    for o in allobs:
        if o.status == 'proved': solv[o.solver] = solv.get(o.solver, 0) + 1
    used_specs = set()
    for c, r, o, t in jobs: used_specs |= set(re.findall(r'^module (\w+)$', t, re.M))
    axioms = scan_axioms(v, used_specs) if v else []
    cov = dict(obligations=len(allobs), discharged=len(allobs) - len(bad),
               checker_cmd='why3 prove -a split_vc (VC generation) + z3 4.8.12 / cvc5 1.1.2 / z3-new, via tool/check.py %s' % pid,
               trusted_base=sorted(trusted) + axioms + ['tool/translate.py: extraction of the C++ AST to WhyML', 'clang 18 AST', 'Why3 1.6.0 VC generator', 'SMT solvers'],
               functions_under_contract=[dict(function=c.qual, obligations=len(o), solver_s=round(sum(x.time for x in o), 2), inlined=r['inlined']) for c, r, o, t in jobs],
               by_solver=solv, solver_time_s=round(sum(o.time for o in allobs), 2),
               lemma_obligations=len(obs_lemma),
               bounded=[dict(function=q, reason=w) for q, w in breaks] ,
               harness=dict(evaluations=sum(h.get('evals', 0) for h in hres), distinct_nontrivial=sum(h.get('nontrivial', 0) for h in hres), rule='seeded generated inputs run on the real library under AddressSanitizer; independent C++ oracle', available=bool(har.exe)),
               reachability_checked=len(jobs))
    ev['coverage'] = cov
    if not jobs and breaks: ev['level'] = 'other'; cov['explanation'] = 'no function could be brought to the verifier on this tree; bounded runs only'
    ev['assumptions'] = ['double arithmetic treated as exact real arithmetic (no rounding, no NaN or infinities)',
                         'int/size_t arithmetic treated as unbounded integers',
                         'std containers and streams behave as the models in spec/prelude.mlw and spec/text.mlw',
                         'reference parameters do not alias each other unless the contract says so'] + prop.get('assumptions', [])
    ev['wall_s'] = round(time.time() - t0, 2); ev['violations'] = 1 if rc else 0
    os.makedirs(ROOT + '/evidence', exist_ok=True)
    json.dump(ev, open(ROOT + '/evidence/%s.json' % pid, 'w'), indent=1)
    print('%s: %d/%d obligations discharged over %d functions, harness cases %d, %.1f s%s' % (pid, len(allobs) - len(bad), len(allobs), len(jobs), cov['harness']['evaluations'], time.time() - t0, '' if rc else ' - held'))
    if rc == 0 and not jobs and not har.exe:
        print('NO ANSWER'); return 2
    return rc

def scan_axioms(v, mods):
    out = []
    for m in sorted(mods):
        if m in v.spec:
            ax = re.findall(r'^\s*axiom (\w+)', v.spec[m][0], re.M)
            if ax: out.append('axioms of spec module %s: %s' % (m, ', '.join(ax)))
    return out

if __name__ == '__main__':
    try: main()
    except SystemExit: raise
    except Exception:
        traceback.print_exc(); sys.exit(2)

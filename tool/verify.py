"""Assembles one Why3 module per function under contract, generates its proof
obligations and discharges them with z3 / cvc5 / z3-new."""
import os, re, subprocess, glob, hashlib, time, json, shutil
from concurrent.futures import ThreadPoolExecutor
from astload import ExtractError
from translate import Translator, Contract, Unsupported

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, 'spec')
CONF = os.path.join(SPEC, 'why3.conf')
DRV = os.path.join(SPEC, 'smt.drv')

def load_spec():
    mods = {}
    for p in sorted(glob.glob(SPEC + '/*.mlw') + glob.glob(SPEC + '/*.mlwt')):
        if os.path.basename(p) in ('sound.mlw',): continue
        txt = open(p).read()
        if p.endswith('.mlwt'):      # instances: `(* instance A=x B=y *)' lines on top
            body = txt; txt = ''
            for inst in re.findall(r'^\(\* instance (.*?) \*\)$', body, re.M):
                t = body
                for kv in inst.split(): k, w = kv.split('='); t = t.replace('{{%s}}' % k, w)
                txt += t
        for m in re.finditer(r'^module (\w+)\n(.*?)^end\s*$', txt, re.S | re.M):
            mods[m.group(1)] = (m.group(0), os.path.basename(p))
    return mods

USE = re.compile(r'^\s*(?:use|clone)(?: export| import)? (\w[\w.]*)', re.M)

class Obligation:
    __slots__ = ('fn', 'label', 'loc', 'path', 'status', 'solver', 'time', 'smoke')
    def __init__(self, fn, label, loc, path):
        self.fn = fn; self.label = label; self.loc = loc; self.path = path
        self.status = None; self.solver = None; self.time = 0.0; self.smoke = False

class Verifier:
    def __init__(self, tu, contracts, work):
        self.tr = Translator(tu, contracts)
        self.spec = load_spec()
        for n in self.spec:      # library types with a specification of their own
            if n.startswith('T_'): self.tr.typemods[n] = None
        self.tr.reserved = {m for t, _ in self.spec.values() for m in re.findall(r'^\s*(?:let |rec |val |ghost |with )*(?:function|predicate|constant|ghost|lemma|val|let|axiom) +([a-z]\w*)', t, re.M)} - {'function', 'predicate', 'constant', 'rec', 'ghost', 'lemma'}
        self.work = work
        os.makedirs(work, exist_ok=True)
        self.cache = os.environ.get('VERIF_DEVCACHE')
        if self.cache: os.makedirs(self.cache, exist_ok=True)
        self.texts = {}

    # ---- assembly
    def resolve(self, names):
        out = []; seen = set()
        def go(n, chain):
            if n in seen or '.' in n or n in ('VTok',) and n in seen: return
            if n in chain: raise ExtractError('cyclic spec modules: ' + '>'.join(chain + [n]))
            if n in self.spec: t = self.spec[n][0]
            else:
                if n not in self.tr.typemods or self.tr.typemods[n] is None: 
                    sv = getattr(self.tr, 'used', set()); self.tr.used = set()
                    self.tr.need_mod(n); self.tr.used = sv
                t = self.tr.typemods[n]
            for d in USE.findall(t): go(d, chain + [n])
            seen.add(n); out.append(t)
        for n in names: go(n, [])
        return out

    def assemble(self, con, smoke=False):
        r = self.tr.translate(con)
        used = sorted(r['used'])
        base = ['Num', 'Edge']
        mods = self.resolve(base + used + sorted(set().union(*[k for k, _ in r['kmods'].values()])))
        t = '\n'.join(mods)
        for n, (ks, kt) in sorted(r['kmods'].items()):
            sv, self.tr.used = self.tr.used, ks
            t += '\nmodule K_%s\n  use int.Int\n  use real.RealInfix\n  use ref.Ref\n' % n + ''.join('  %s\n' % self.tr.use_line(u) for u in base + sorted(ks)) + kt + 'end\n'
            self.tr.used = sv
        t += '\nmodule F\n  use int.Int\n  use real.RealInfix\n  use real.FromInt\n  use ref.Ref\n'
        for u in base + used: t += '  ' + self.tr.use_line(u) + '\n'
        t += '  exception Throw\n  exception Brk\n  exception Cnt\n'
        for e, ty in r['exc']:
            if e in ('Brk', 'Cnt', 'Throw'): continue
            t += '  exception %s%s\n' % (e, ' ' + ty if ty not in ('', 'unit') else '')
        t += r['callees'] + '\n' + r['def'] + 'end\n'
        return t, r

    def gen(self, con, text, tag=''):
        d = os.path.join(self.work, con.name + tag)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, 'm.mlw')
        open(p, 'w').write(text)
        return self.gen_file(p, 'F', con.qual, d)

    def gen_file(self, p, module, fn, d):
        out = os.path.join(d, 'smt_' + module); os.makedirs(out, exist_ok=True)
        for f in glob.glob(out + '/*.smt2'): os.remove(f)
        conf = os.path.join(d, 'why3.conf')
        open(conf, 'w').write(open(CONF).read().replace('/verif/spec/', SPEC + '/'))
        base = ['why3', 'prove', '-C', conf, p, '-T', module, '-a', 'split_vc']
        a = subprocess.Popen(base + ['-D', DRV, '-o', out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        b = subprocess.Popen(base + ['-P', 'label'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ao, _ = a.communicate(); bo, _ = b.communicate()
        if a.returncode not in (0,) :
            raise ExtractError('why3 rejected the generated module for %s: %s' % (fn, re.sub(r'Warning, file .*(\n(?!File|Warning).*)*\n?', '', ao).strip()[-600:]))
        subs = []
        for para in re.split(r'\n(?=File |Theory )', bo):
            para = re.sub(r'\s+', ' ', para.split('Prover result')[0])
            m = re.search(r'line (\d+), characters? (\d+(?:-\d+| to line \d+, character \d+)): (?:Sub-goal (.*) of goal|Goal) ([\w\']+)\.', para)
            if not m:
                m = re.search(r'File [^ ]*():():? ?Sub-goal (.*) of goal ([\w\']+)\.', para)
            if m: subs.append(m.groups())
        def key(x):
            m = re.match(r"m-\w+?-(.*?)(\d*)\.smt2$", os.path.basename(x))
            return (m.group(2) == '', )
        files = glob.glob(out + '/*.smt2')
        groups = {}
        for f in files:
            m = re.match(r"[^-]+-%s-(.*?)(\d*)\.smt2$" % module, os.path.basename(f))
            groups.setdefault(m.group(1), []).append((int(m.group(2) or 0), f))
        order = []
        obs = []
        cnt = {}
        for line, ch, lab, goal in subs:
            g = goal.replace("'", 'qt')
            k = cnt.get(goal, 0); cnt[goal] = k + 1
            fl = sorted(groups.get(g, []))
            path = fl[k][1] if k < len(fl) else None
            if path is None: raise ExtractError('obligation files do not match labels for %s (%s)' % (fn, goal))
            obs.append(Obligation(fn, re.sub(r'\s+', ' ', lab or goal), 'line %s' % line, path))
        if len(obs) != len(files): raise ExtractError('obligation files do not match labels for %s: %d vs %d' % (fn, len(obs), len(files)))
        return obs

    # ---- solving
    LEAF = {'cross3', 'sqdist', 'xprod', 'meet_t', 'meet_s', 'meet_den', 'meet_x', 'meet_y', 'edge_term', 'crosses', 'circ_den', 'gen_x', 'gen_y', 'gen_next', 'gen_point', 'grid_at', 'grid_step'}
    MID = LEAF | {'on_seg', 'seg_meet', 'first_meet', 'collinear', 'straddles', 'between_tol', 'peq', 'plt', 'pseg_eq', 'near', 'eqs', 'in01'}
    TOP = MID | {'elen', 'turn', 'edges_meet', 'on_edge'}

    def hidden(self, path, which):
        """the same obligation with some definitions forgotten (sound: hypotheses only get weaker)"""
        q = path[:-5] + '.%s.smt2' % which
        t = open(path).read()
        if which == 'norec':
            # forget the recursive definitions: the obligation carries the instances it needs
            n = re.sub(r"^;; \"\w+'def\"\n\(assert(?:.|\n)*?\n\n", '', t, flags=re.M)
            if n == t: return None
            open(q, 'w').write(n); return q
        if which == 'unl':
            # products and quotients uninterpreted (only multiplication by a literal is kept)
            if '(rmul_ ' not in t and '(rquo_ ' not in t: return None
            lits = sorted(set(re.findall(r'\(rmul_ (\d+\.\d+)\s', t)))
            ax = ''.join('(assert (forall ((x Real)) (! (= (rmul_ %s x) (* %s x)) :pattern ((rmul_ %s x)))))\n' % (l, l, l) for l in lits)
            n = t.replace('(define-fun rmul_ ((x Real) (y Real)) Real (* x y))', '(declare-fun rmul_ (Real Real) Real)\n' + ax)
            n = n.replace('(define-fun rquo_ ((x Real) (y Real)) Real (/ x y))', '(declare-fun rquo_ (Real Real) Real)')
            open(q, 'w').write(n); return q
        names = {'leaf': self.LEAF, 'mid': self.MID, 'top': self.TOP}[which]
        out = []; i = 0
        for m in re.finditer(r'^\(define-fun (\w+) \(', t, re.M):
            base = m.group(1)
            if base not in names or m.start() < i: continue
            # arguments
            k = m.end(); d = 1; st = k
            while d: d += {'(': 1, ')': -1}.get(t[k], 0); k += 1
            sorts = re.findall(r'\(\S+ ([^()\s]+)\)', t[st:k - 1])
            r = re.match(r'\s*([^()\s]+)', t[k:])
            e = k; d = 1
            while d: d += {'(': 1, ')': -1}.get(t[e], 0); e += 1
            out.append(t[i:m.start()]); out.append('(declare-fun %s (%s) %s)' % (base, ' '.join(sorts), r.group(1)))
            i = e
        if not out: return None
        out.append(t[i:])
        open(q, 'w').write(''.join(out))
        return q

    def run_solver(self, s, path, tl):
        if '+' in s:
            s, ws = s.split('+')
            for w in ws.split(','):
                path = self.hidden(path, w)
                if path is None: return 'same'
        if s == 'z3': cmd = ['z3', '-T:%d' % tl, '-memory:3000', path]
        elif s == 'z3-new': cmd = ['z3-new', '-T:%d' % tl, '-memory:3000', path]
        elif s == 'cvc5': cmd = ['cvc5', '-q', '--tlimit=%d' % (tl * 1000), path]
        elif s == 'cvc5-enum': cmd = ['cvc5', '-q', '--enum-inst', '--tlimit=%d' % (tl * 1000), path]
        elif s == 'z3-nonl': cmd = ['z3', '-T:%d' % tl, '-memory:3000', 'smt.arith.nl=false', path]
        elif s == 'z3-nomacro': cmd = ['z3', '-T:%d' % tl, '-memory:3000', 'smt.mbqi=false', 'smt.auto_config=false', path]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=tl + 5)
            o = r.stdout.strip()
        except subprocess.TimeoutExpired:
            o = 'timeout'
        l = [x for x in o.splitlines() if x in ('sat', 'unsat', 'unknown', 'timeout')]
        return l[0] if l else ('error: ' + o[:200])

    STAGES = [[('z3', 1), ('cvc5', 1), ('cvc5+unl', 1), ('cvc5+norec', 1), ('cvc5+norec,unl', 1), ('z3+mid', 2), ('z3+leaf', 2), ('z3', 3), ('z3+norec', 2), ('z3+unl', 1), ('z3+top', 2)],
              [('cvc5', 6), ('z3-nomacro', 6), ('cvc5+mid', 5), ('cvc5+norec', 5), ('cvc5+unl', 5), ('cvc5+norec,unl', 5), ('z3-nomacro+mid', 4)], [('z3-new', 10), ('cvc5-enum', 10), ('z3-nonl', 8)]]
    LAST = [[('z3', 40), ('z3+mid', 20), ('z3+leaf', 20), ('z3+norec', 20), ('cvc5+norec', 20), ('z3+unl', 10), ('cvc5+unl', 20), ('cvc5+norec,unl', 10), ('z3+top', 10), ('cvc5+mid', 20), ('cvc5', 40), ('z3-nomacro', 40), ('z3-new', 40)]]

    stop = False; deadline = None; settled = False; wins = {}
    def solve(self, ob, stages=None):
        if ob.status == 'proved': return ob
        h = None
        if self.cache:
            h = hashlib.sha1(re.sub(r';;.*', '', open(ob.path).read()).encode()).hexdigest()
            c = os.path.join(self.cache, h)
            if os.path.exists(c):
                ob.status, ob.solver, t = open(c).read().split('|'); ob.time = float(t); return ob
        t0 = time.time()
        last = None
        stages = list(stages or self.STAGES)
        if stages[0] is self.STAGES[0]:
            # after the first round, what has worked for this function so far
            w = self.wins.get(ob.fn, {})
            best = sorted(w, key=lambda s: -w[s])[:2]
            stages = [stages[0][:5], [(s, 6) for s in best], stages[0][5:]] + stages[1:]
        for n, st in enumerate(stages):
            for s, tl in st:
                if self.stop or (self.deadline and time.time() > self.deadline): ob.status = 'unproved'; ob.solver = last or 'not attempted'; return ob
                r = self.run_solver(s, ob.path, tl)
                if r == 'unsat':
                    ob.status = 'proved'; ob.solver = s; ob.time = time.time() - t0
                    if n > 0: w = self.wins.setdefault(ob.fn, {}); w[s] = w.get(s, 0) + 1
                    if h: open(os.path.join(self.cache, h), 'w').write('%s|%s|%.2f' % (ob.status, ob.solver, ob.time))
                    return ob
                last = r
        ob.status = 'unproved'; ob.solver = last; ob.time = time.time() - t0
        return ob

    def smoke_text(self, text):
        """the same function with an unprovable postcondition added: some exit must refuse to prove it"""
        i = text.index('\n  let f ')
        j = text.index('  =\n', i)
        return text[:j].rstrip('\n') + '\n    ensures { [@expl:SMOKE] false }\n' + text[j:]

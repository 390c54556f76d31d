"""Decides one property: run.py <property> (VERIF_TIER, VERIF_SEED).

1. builds the Go frontend and translates /repo's working tree, with the contracts
   of /verif/contracts overlaid, to SSA;
2. discharges every obligation of every ghost function of the property, and of
   every contract those proofs use;
3. runs the same ghost functions on concrete inputs against the compiled code
   (replay of solver models, and a bounded stand-in where a proof is missing);
4. writes evidence/<property>.json and prints the verdict.
"""
import collections
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import concrete  # noqa: E402
import overlay  # noqa: E402
import verify  # noqa: E402

VERIF = overlay.VERIF
REPO = os.environ.get('ZZ_REPO', '/repo')
MOD = 'github.com/DataDog/orchestrion/'
DUMP = None


def env():
    e = dict(os.environ)
    out = subprocess.run(['bash', '-c', '[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1; env -0'], capture_output=True).stdout
    for kv in out.split(b'\0'):
        if b'=' in kv:
            k, v = kv.split(b'=', 1)
            if k in (b'PATH', b'GOROOT', b'GOPATH', b'GOCACHE', b'GOMODCACHE', b'GOFLAGS', b'GOPROXY', b'GOTOOLCHAIN', b'GOSUMDB', b'GONOSUMDB', b'HOME'):
                e[k.decode()] = v.decode()
    e.pop('TOOLEXEC_IMPORTPATH', None)
    return e


def ghost_files():
    """contracts-relative directory -> {ghost function: (file, line)}"""
    out = {}
    root = os.path.join(VERIF, 'contracts')
    for d, _, fs in os.walk(root):
        rel = os.path.relpath(d, root)
        for f in sorted(fs):
            if not f.endswith('.go'):
                continue
            for m in re.finditer(r'^func (C\d\d_\w+)\(', open(os.path.join(d, f)).read(), re.M):
                out.setdefault(rel, {})[m.group(1)] = f
    return out


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.lock = threading.Lock()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'):
            self.tier = sys.argv[2]
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.quick = self.tier == 'quick'
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='zzverif_')
        self.notes = []
        self.dropped = {}
        self.base = {}
        p = os.path.join(VERIF, 'baseline.json')
        if os.path.exists(p):
            self.base = json.load(open(p))
        p = os.path.join(VERIF, 'known_findings.json')
        self.known = json.load(open(p)) if os.path.exists(p) else []

    # -------------------------------------------------------------- frontend
    def build_front(self):
        out = os.path.join(self.work, 'front')
        r = subprocess.run(['go', 'build', '-o', out, '.'], cwd=os.path.join(VERIF, 'govc', 'front'), capture_output=True, text=True, env=self.env)
        if r.returncode != 0:
            self.die('frontend does not build: ' + r.stderr[-2000:])
        self.front = out

    def dump(self, extra):
        """Translates the tree; a ghost function that no longer type-checks is
        dropped (and reported), so that the others still decide."""
        global DUMP
        for attempt in range(12):
            ov = overlay.write(os.path.join(self.work, 'ov.json'), REPO, extra)
            out = os.path.join(self.work, 'dump.json')
            r = subprocess.run([self.front, '-dir', REPO, '-overlay', ov, '-o', out, '-deps', overlay.deps(self.prop), './internal/...', '.'], cwd=REPO, capture_output=True, text=True, env=self.env)
            if r.returncode != 0:
                self.die('frontend: ' + r.stderr[-2000:])
            d = json.load(open(out))
            if not d['errors']:
                DUMP = d
                return
            if not self.degrade(d['errors'], extra):
                self.die('the tree does not type-check: ' + json.dumps(d['errors'][:5]))
        self.die('contracts do not type-check: ' + json.dumps(d['errors'][:5]))

    def degrade(self, errors, extra):
        done = False
        rep = overlay.build(REPO, extra)
        edits = collections.defaultdict(set)
        for e in errors:
            m = re.match(r'(.*?\.go):(\d+)', e['pos'] or '')
            if not m:
                continue
            f, line = m.group(1), int(m.group(2))
            if not os.path.isabs(f):
                f = os.path.join(REPO, f)
            if 'zz_verif' in f and f in rep:
                edits[f].add((line, e['msg']))
        for f, errs in edits.items():
            src = open(rep[f]).read().split('\n')
            # top-level declarations as line ranges
            starts = [i for i, l in enumerate(src) if re.match(r'(func|type|var|const|import)\b', l)] + [len(src)]
            for line, msg in errs:
                if re.match(r'^\s*(\w+ )?"', src[line - 1]) or 'imported and not used' in msg:
                    src[line - 1] = ''
                    done = True
                    continue
                for a, b in zip(starts, starts[1:]):
                    if a <= line - 1 < b:
                        m = re.match(r'func (?:\([^)]*\) )?(\w+)', src[a])
                        nm = m.group(1) if m else src[a][:40]
                        self.dropped[nm] = msg
                        for i in range(a, b):
                            src[i] = ''
                        done = True
                        break
            p = os.path.join(self.work, 'deg_' + re.sub(r'\W', '_', f) + '.go')
            open(p, 'w').write('\n'.join(src))
            extra[f] = p
        return done

    # ------------------------------------------------------------------ main
    def die(self, msg):
        """No verdict is possible (the tree does not build)."""
        print(f'no verdict: {msg}')
        self.evidence({'explanation': msg, 'obligations': 0, 'discharged': 0, 'checker_cmd': self.cmd(), 'trusted_base': []}, [])
        shutil.rmtree(self.work, ignore_errors=True)
        sys.exit(2)

    def cmd(self):
        return f'VERIF_TIER={self.tier} /verif/check.sh {self.prop}'

    def evidence(self, cov, viol, assumptions=()):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration' if 'evaluations' in cov else 'proof', 'coverage': cov,
              'assumptions': list(assumptions), 'wall_s': round(time.time() - self.t0, 2), 'violations': len(viol)}
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)

    def prove_all(self, names, mode, timeout, unroll, deadline, pool):
        return {n: pool.submit(verify_job, n, mode, timeout, unroll, deadline, self.prop) for n in names}

    def main(self):
        self.env = env()
        os.environ.update(self.env)
        self.build_front()
        allg = ghost_files()
        rels = sorted(r for r, g in allg.items() if any(n.startswith(self.prop + '_') for n in g))
        if not rels:
            self.die('no contracts for ' + self.prop)
        extra = {}
        self.dump(extra)
        full = {}
        for rel, g in allg.items():
            for n in g:
                fn = MOD + rel + '.' + n
                if fn in DUMP['funcs']:
                    full[fn] = rel
        mine = sorted(n for n in full if n.rsplit('.', 1)[1].startswith(self.prop + '_'))
        fc = verify.ghost.find_contracts(_Dummy(DUMP), self.prop)
        contracts = {c['ghost'] for c in fc.values()}
        self.frames = frames = {g for g in contracts if not verify.ghost.has_assert(_Dummy(DUMP), g)}
        conc_only = {n for n in mine if n.rsplit('.', 1)[1].startswith((self.prop + '_KF_', self.prop + '_run_'))}
        todo = [n for n in mine if n not in conc_only and n not in frames]
        timeout = 10000 if self.quick else 60000
        deadline = 240 if self.quick else 3000

        # concrete side, in parallel with the proofs
        runner = concrete.Runner(REPO, self.work)
        runner.prepare(rels, extra, self.dropped)
        cres = {'bins': {}, 'res': {}, 'logs': []}
        words = {}
        dummy = _Dummy(DUMP)
        for n in mine:
            seen, _ = verify.Engine.reachable(dummy, n)
            words[n.rsplit('.', 1)[1]] = concrete.consts_of(DUMP, n, seen)

        def conc():
            ths = []
            for rel in rels:
                def one(rel=rel):
                    b, log = runner.build(rel)
                    if b is None:
                        cres['logs'].append(f'{rel}: {log[-1500:]}')
                        return
                    cres['bins'][rel] = b
                    gs = [g for g in runner.info[rel][1] if self.runnable(rel, g)]
                    ms = 4000 if self.quick else 60000
                    self.run_conc(runner, rel, b, gs, ms, words, cres, None)
                    # ghosts that are slow to execute get more time, from several seeds
                    slow = [g for g in gs if '_run_' in g and 0 < cres['res'].get(g, {}).get('runs', 0) < 3000 and not cres['res'][g].get('failed')]
                    if slow:
                        more = 15000 if self.quick else 90000
                        with cf.ThreadPoolExecutor(5) as tp:
                            list(tp.map(lambda k: self.run_conc(runner, rel, b, slow, more // len(slow), words, cres, None, 1000 * k), range(1, 6)))
                t = threading.Thread(target=one)
                t.start()
                ths.append(t)
            for t in ths:
                t.join()
        cth = threading.Thread(target=conc)
        results = {}
        ctx = mp.get_context('fork')
        with cf.ProcessPoolExecutor(max_workers=7, mp_context=ctx, max_tasks_per_child=None) as pool:
            pool.submit(int, 1).result()
            cth.start()
            # heavy contracts first, by recorded time
            order = sorted(todo, key=lambda n: -self.base.get(n, {}).get('secs', 5))
            fut = self.prove_all(order, 'prove', timeout, 3, deadline, pool)
            pending = dict(fut)
            while pending:
                done, _ = cf.wait(list(pending.values()), return_when=cf.FIRST_COMPLETED)
                for n in [k for k, v in pending.items() if v in done]:
                    try:
                        results[n] = pending[n].result()
                    except Exception as e:
                        results[n] = {'ghost': n, 'mode': 'prove', 'err': 'generator process: ' + repr(e), 'obls': [], 'covers': {}, 'assumed': {}, 'inlined': [], 'contracts': [], 'secs': 0, 'paths': 0, 'invs': [], 'solver': 0}
                    del pending[n]
                    for c in results[n]['contracts']:
                        g = fc[c]['ghost']
                        if g not in results and g not in pending and g not in frames:
                            pending[g] = pool.submit(verify_job, g, 'prove', timeout, 3, deadline, self.prop)
            cth.join()
            # second round for what the proofs left open
            lost = [n for n, r in results.items() if not self.proved(r)]
            second = {}
            if lost:
                fut = self.prove_all(lost, 'bounded', timeout, 3 if self.quick else 4, 150 if self.quick else 1200, pool)
                for n, f in fut.items():
                    try:
                        second[n] = f.result()
                    except Exception as e:
                        second[n] = None
        # replay of solver models, and longer concrete runs where a proof is missing
        replay = collections.defaultdict(list)
        for n in lost:
            for r in (results[n], second.get(n)):
                for o in (r or {}).get('obls', []):
                    if o['status'] != 'discharged' and o.get('model_inputs') is not None:
                        replay[n.rsplit('.', 1)[1]].append(o['model_inputs'])
        if lost:
            byrel = collections.defaultdict(list)
            for n in lost:
                if self.runnable(full[n], n.rsplit('.', 1)[1]):
                    byrel[full[n]].append(n.rsplit('.', 1)[1])
            for rel, gs in byrel.items():
                if rel not in runner.info:
                    runner.prepare(list(runner.info) + [rel], extra, self.dropped)
                b = cres['bins'].get(rel) or runner.build(rel)[0]
                if b:
                    cres['bins'][rel] = b
                    self.run_conc(runner, rel, b, gs, 15000 if self.quick else 200000, words, cres, {g: replay[g][:24] for g in gs})
        self.verdict(mine, conc_only, results, second, cres, full, contracts)

    def run_conc(self, runner, rel, b, gs, ms, words, cres, replay, shift=0):
        """All ghosts in one process; on a crash, one by one."""
        res, rc, log = runner.run(rel, b, gs, self.seed + shift, ms, 10**7, {g: words.get(g, []) for g in gs}, replay)
        got = {r['ghost'] for r in res}
        if rc != 0:
            for g in gs:
                if g in got:
                    continue
                r1, rc1, log1 = runner.run(rel, b, [g], self.seed + shift, ms, 10**7, {g: words.get(g, [])}, replay)
                if r1:
                    res += r1
                else:
                    m = re.search(r'^(fatal error: .*|panic: .*|runtime: goroutine stack exceeds.*|signal: .*)$', log1, re.M)
                    res.append({'ghost': g, 'runs': 0, 'kept': 0, 'asserts': 0, 'covered': {}, 'crash': log1[:30000], 'crashline': m.group(1) if m else ('exit %s' % rc1)})
        for r in res:
            with self.lock:
                o = cres['res'].get(r['ghost'])
                if o is not None and o.get('failed'):
                    continue
                r['rel'] = rel
                if o:
                    for k in ('runs', 'kept', 'asserts'):
                        r[k] += o[k]
                    r['hashes'] = sorted(set(r.get('hashes') or []) | set(o.get('hashes') or []))
                    r['samples'] = o.get('samples') or r.get('samples')
                    if r.get('crash') and not o.get('crash') and not re.match(r'panic: (?!test timed out)|fatal error: ', r['crashline']):
                        r['crash'] = None
                cres['res'][r['ghost']] = r

    def runnable(self, rel, g):
        """Contracts with _sym_ in their name are never executed: the code under
        them would start processes or touch files outside a scratch directory."""
        return g.startswith((self.prop + '_', 'C00_')) and '_sym_' not in g and MOD + rel + '.' + g not in self.frames

    def proved(self, r):
        return not r['err'] and r['obls'] and all(o['status'] == 'discharged' for o in r['obls'])

    def verdict(self, mine, conc_only, results, second, cres, full, contracts):
        viol = []
        known_lines = []
        known = [k for k in self.known if k['property'] == self.prop and not k.get('fixed')]
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        lostproof, bounded_ok = [], []

        def replay_file(g, body):
            p = os.path.join(rdir, f'{self.prop}_{g}.json')
            with open(p, 'w') as f:
                json.dump(body, f, indent=1)
            return p

        # concrete failures: a failing input on the compiled code
        for g, r in sorted(cres['res'].items()):
            if r.get('crash') and not r.get('failed'):
                if self.base.get(MOD + r['rel'] + '.' + g, {}).get('concrete') or re.match(r'panic: (?!test timed out)|fatal error: ', r['crashline']):
                    r['failed'] = 'crash: ' + r['crashline']
                    r['input'] = 'see log'
                else:
                    print('  %s crashed: %s\n%s' % (g, r['crashline'], r['crash']))
            if not r.get('failed'):
                continue
            if '_KF_' in g:
                hit = [k for k in known if k['ghost'] == g]
                if hit:
                    known_lines.append(f"KNOWN-FINDING: property={self.prop} {hit[0]['what']}")
                    continue
            body = {'property': self.prop, 'contract': g, 'obligation': r['failed'], 'input': r.get('input'), 'source': r.get('source'), 'note': r.get('note'), 'stack': r.get('stack') or r.get('crash'),
                    'how': f'the contract function {g} (contracts/{r["rel"]}) was executed against the compiled code with this input and its obligation does not hold'}
            viol.append((g, r['failed'], replay_file(g, body), False))
        failedg = {v[0] for v in viol}
        obls = dis = 0
        backends = collections.Counter()
        solver = 0.0
        assumed = collections.Counter()
        inl = set()
        contracted = set()
        vac = []
        for n, r in sorted(results.items()):
            g = n.rsplit('.', 1)[1]
            solver += r['solver']
            assumed.update(r['assumed'])
            inl |= set(r['inlined'])
            contracted |= set(r['contracts'])
            obls += len(r['obls'])
            for o in r['obls']:
                if o['status'] == 'discharged':
                    dis += 1
                    backends[o['backend']] += 1
            if r['err']:
                obls += 1      # the part of the function that was not reached
            for c, s in r['covers'].items():
                if s == 'unreachable':
                    vac.append(f'{g}: {c}')
            if self.proved(r):
                continue
            lostproof.append(g)
            if g in failedg:
                continue
            s = second.get(n)
            base = self.base.get(n, {})
            newext = sorted(set(s['assumed'] if s else {}) - set(base.get('assumed', [])))
            bad = [o for o in (s or {}).get('obls', []) if o['status'] == 'refuted']
            if base.get('status') == 'proved' and bad and not newext:
                o = bad[0]
                first = [x for x in r['obls'] if x['status'] != 'discharged']
                body = {'property': self.prop, 'contract': g, 'obligation': o['label'], 'kind': o['kind'], 'in': o['fn'], 'at': o['pos'], 'verifier': 'refuted (bounded unrolling of the loops, no abstraction)',
                        'model': o.get('model'), 'model_inputs': o.get('model_inputs'),
                        'failed_obligations': [{k: x[k] for k in ('label', 'kind', 'fn', 'pos', 'status', 'note')} for x in first][:20],
                        'generator': r['err'], 'how': 'this obligation was discharged on the unchanged tree; the verifier now refutes it; no concrete input was found'}
                viol.append((g, o['label'], replay_file(g, body), True))
            else:
                bounded_ok.append({'contract': g, 'generator': r['err'], 'open_obligations': [(o['label'], o['status'], o['fn'].rsplit('/', 1)[-1], o['pos']) for o in r['obls'] if o['status'] != 'discharged'][:10],
                                   'bounded_symbolic': None if s is None else {'unroll': 3 if self.quick else 4, 'obligations': len(s['obls']), 'discharged': sum(1 for o in s['obls'] if o['status'] == 'discharged'), 'stopped': s['err'], 'new_externals': newext},
                                   'bounded_concrete_runs': cres['res'].get(g, {}).get('kept', 0)})
        for g, r in cres['res'].items():
            for c, k in r.get('covered', {}).items():
                pass
        if not results and not conc_only:
            vac.append('no ghost function could be checked')
        conc = {g: {'inputs': r['kept'], 'distinct': len(r.get('hashes') or []) or None, 'discarded': r['runs'] - r['kept'], 'assertions': r['asserts'], 'generator': 'missing' if r.get('nogen') else 'ok'} for g, r in sorted(cres['res'].items())}
        repo_inl = sorted(x.replace(MOD, '') for x in inl if '/zzghost' not in x and not re.search(r'\.C\d\d_', x) and 'orchestrion' in x)
        cov = {
            'obligations': obls, 'discharged': dis, 'checker_cmd': self.cmd(),
            'trusted_base': ['govc VC generator (/verif/govc)', 'golang.org/x/tools/go/ssa', 'z3 (python bindings)', 'cvc5 (second opinion)', 'models of the standard library in govc/vc/models.py'],
            'contract_functions': sorted(n.rsplit('.', 1)[1] for n in results),
            'functions_under_contract': repo_inl,
            'functions_used_by_contract_only': sorted(c.replace(MOD, '') for c in contracted),
            'backends': dict(backends), 'solver_s': round(solver, 1),
            'invariants': {n.rsplit('.', 1)[1]: r['invs'] for n, r in results.items() if r['invs']},
            'vacuous': vac,
            'not_proved_bounded_only': bounded_ok,
            'concrete_runs': conc, 'concrete_build_errors': cres['logs'],
            'concrete_only_contracts': sorted(n.rsplit('.', 1)[1] for n in conc_only),
            'contracts_dropped_by_type_errors': self.dropped,
            'known_findings': known_lines,
        }
        if not results:
            # nothing but executed contracts: bounded
            runs = [r for g, r in cres['res'].items() if '_run_' in g]
            cov['evaluations'] = sum(r['kept'] for r in runs)
            cov['distinct_nontrivial'] = sum(len(r.get('hashes') or []) for r in runs)
            cov['rule'] = 'inputs are drawn at random by the generators of the contract files; counted are distinct inputs (by their rendering) which meet the preconditions'
            cov['samples'] = [x for r in runs for x in (r.get('samples') or [])][:4]
        ass = ['machine integers are treated as mathematical integers within the range of their type',
               'strings are finite sequences of bytes; strings.Map-like Unicode behaviour only where modelled',
               'append always yields a fresh backing array; goroutines, channels and timing are not modelled; sync.Once runs its function',
               'interface methods without a known receiver and unknown function values are deterministic functions of their arguments',
               'memory is not exhausted']
        ass += [f'external function without a contract, result unconstrained: {a}' for a in sorted(assumed)]
        self.evidence(cov, viol, ass)
        if '--json' in sys.argv:
            i = sys.argv.index('--json')
            json.dump({'results': results, 'second': second, 'conc': cres['res']}, open(sys.argv[i + 1], 'w'), indent=1)
        print(f'{self.prop}: {dis}/{obls} obligations discharged in {len(results)} contract functions, solver {solver:.0f} s; {sum(r["kept"] for r in cres["res"].values())} concrete runs; {time.time() - self.t0:.0f} s')
        for b in bounded_ok:
            print(f"  bounded only: {b['contract']} ({b['generator'] or 'open obligation'}: {b['open_obligations'][:2]})")
        for d, m in self.dropped.items():
            print(f'  contract dropped (does not type-check against this tree): {d}: {m}')
        for l in cres['logs']:
            print('  concrete build failed: ' + l[-800:])
        for v in vac:
            print('  vacuous: ' + v)
        for k in known_lines:
            print(k)
        for g, lab, path, nff in viol:
            print(f'  {g}: obligation fails: {lab}')
            print(f'VIOLATION property={self.prop} replay={path}' + (' no-failing-input-found' if nff else ''))
        if '--baseline' in sys.argv:
            self.write_baseline(results, cres, full)
        shutil.rmtree(self.work, ignore_errors=True)
        sys.exit(1 if viol else 0)

    def write_baseline(self, results, cres, full):
        p = os.path.join(VERIF, 'baseline.json')
        b = json.load(open(p)) if os.path.exists(p) else {}
        for n in list(b):
            if n.rsplit('.', 1)[1].startswith(self.prop + '_') and n not in full:
                del b[n]
        for n, r in results.items():
            b[n] = {'status': 'proved' if self.proved(r) else 'open', 'obligations': len(r['obls']), 'assumed': sorted(r['assumed']), 'secs': round(r['secs'])}
        for g, r in cres['res'].items():
            n = MOD + r['rel'] + '.' + g
            b.setdefault(n, {})['concrete'] = r['kept'] > 0
        with open(p, 'w') as f:
            json.dump(dict(sorted(b.items())), f, indent=1)
            f.write('\n')


class _Dummy:
    def __init__(self, d):
        self.d = d
        self.funcs, self.methods = d['funcs'], d['methods']


def verify_job(n, mode, timeout, unroll, deadline, prop):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    return verify.job(DUMP, n, mode, timeout, unroll, deadline, prop=prop)


if __name__ == '__main__':
    Check(sys.argv[1]).main()

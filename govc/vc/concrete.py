"""Concrete runs of ghost functions against the real code (bounded stand-ins and
replays of solver models), through 'go test -overlay'."""
import json
import os
import re
import subprocess
import tempfile

import overlay

MOD = 'github.com/DataDog/orchestrion/'


def test_file(pkgname, ghosts, gens):
    g = '\n'.join(f'\t\t"{n}": {n},' for n in ghosts)
    h = '\n'.join(f'\t\t{n},' for n in gens)
    return f'''package {pkgname}

import (
	"testing"

	zz "github.com/DataDog/orchestrion/internal/zzghost"
)

func TestZZVerif(t *testing.T) {{
	zz.Run(map[string]any{{
{g}
	}}, []any{{
{h}
	}})
}}
'''


def scan(dir_):
    """Ghost functions and generators declared in a contracts directory."""
    ghosts, gens, pkg = [], [], None
    for f in sorted(os.listdir(dir_)):
        if not f.endswith('.go'):
            continue
        txt = open(os.path.join(dir_, f)).read()
        pkg = pkg or re.search(r'^package (\w+)', txt, re.M).group(1)
        gens += re.findall(r'^func (gen_\w+)\(', txt, re.M)
        ghosts += re.findall(r'^func (C\d\d_\w+)\(', txt, re.M)
    return pkg, ghosts, gens


def consts_of(dump, ghost_full, seen_cache):
    """String constants in the functions reachable from a ghost function."""
    out = set()
    for fn in seen_cache:
        f = dump['funcs'].get(fn)
        if not f or 'blocks' not in f:
            continue

        def walk(o):
            if isinstance(o, list):
                if len(o) == 3 and o[0] == 'c' and isinstance(o[2], dict) and 's' in o[2]:
                    s = bytes(o[2]['s'])
                    if len(s) <= 80:
                        try:
                            out.add(s.decode())
                        except UnicodeDecodeError:
                            pass
                    return
                for x in o:
                    walk(x)
            elif isinstance(o, dict):
                for x in o.values():
                    walk(x)
        walk(f['blocks'])
    return sorted(out)


class Runner:
    def __init__(self, repo, work):
        self.repo, self.work = repo, work

    def prepare(self, rels, degraded=None, dropped=()):
        """Writes the overlay with a test driver for each package directory."""
        extra = dict(degraded or {})
        self.info = {}
        for rel in rels:
            d = os.path.join(overlay.VERIF, 'contracts', rel)
            pkg, ghosts, gens = scan(d)
            ghosts = [g for g in ghosts if g not in dropped]
            gens = [g for g in gens if g not in dropped]
            self.info[rel] = (pkg, ghosts, gens)
            p = os.path.join(self.work, rel.replace('/', '_') + '_run_test.go')
            with open(p, 'w') as f:
                f.write(test_file(pkg, ghosts, gens))
            extra[os.path.join(self.repo, rel, 'zz_verif_run_test.go')] = p
        self.ov = os.path.join(self.work, 'ov_test.json')
        overlay.write(self.ov, self.repo, extra)

    def build(self, rel):
        """Compiles the test binary of one package."""
        out = os.path.join(self.work, rel.replace('/', '_') + '.test')
        r = subprocess.run(['go', 'test', '-c', '-vet=off', '-overlay', self.ov, '-o', out, './' + rel], cwd=self.repo, capture_output=True, text=True)
        if r.returncode != 0:
            return None, r.stdout + r.stderr
        return out, ''

    def run(self, rel, binary, ghosts, seed, millis, maxruns, words, replay=None, only=None, timeout=600):
        fd, cfg = tempfile.mkstemp(dir=self.work, suffix='.json')
        os.close(fd)
        outp = cfg + '.out'
        with open(cfg, 'w') as f:
            json.dump({'seed': seed, 'millis': millis, 'max': maxruns, 'words': words, 'ghosts': ghosts, 'replay': replay or {}, 'only': only or {}, 'out': outp}, f)
        env = dict(os.environ, ZZ_CONFIG=cfg)
        scratch = tempfile.mkdtemp(dir=self.work)
        env['TMPDIR'] = scratch
        try:
            r = subprocess.run([binary, '-test.run', 'TestZZVerif$', '-test.timeout', f'{timeout}s'], cwd=os.path.join(self.repo, rel), env=env, capture_output=True, text=True, timeout=timeout + 10)
            log = r.stdout[:2000] + r.stderr[:300000][-9000:] + r.stdout[-6000:] + r.stderr[-30000:]
            rc = r.returncode
        except subprocess.TimeoutExpired:
            log, rc = 'timeout', -1
        res = []
        if os.path.exists(outp):
            for line in open(outp):
                res.append(json.loads(line))
        return res, rc, log

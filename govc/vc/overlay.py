"""Overlay of /verif/contracts onto /repo: ghost files live beside the real code."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def build(repo, extra=None):
    root = os.path.join(VERIF, 'contracts')
    rep = {}
    for d, _, fs in os.walk(root):
        rel = os.path.relpath(d, root)
        for f in fs:
            if not f.endswith('.go'):
                continue
            dst = os.path.join(repo, 'internal', rel, f) if rel == 'zzghost' else os.path.join(repo, rel, f)
            rep[dst] = os.path.join(d, f)
    rep.update(extra or {})
    return rep


def write(path, repo, extra=None):
    with open(path, 'w') as f:
        json.dump({'Replace': build(repo, extra)}, f)
    return path


def deps(prop):
    """The dependencies whose own code is to be verified, not assumed: those that
    the contract files of the property ask for (`//zz:deps import/path`)."""
    out = set()
    for _, f in build('').items():
        if os.path.basename(f) == f'zz_verif_{prop.lower()}.go':
            for line in open(f):
                if line.startswith('//zz:deps '):
                    out.add(line.split()[1])
    return ','.join(sorted(out))

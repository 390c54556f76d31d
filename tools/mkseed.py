"""Writes /verif/seeded/<id>/ from a description (see tools/seeds/*.py): the patch
is made in a scratch copy of /repo, the demonstration is an in-package Go test."""
import difflib
import json
import os
import sys

DEMO = '''#!/bin/bash
# Runs the test beside this script inside package {pkg} of the repository in the
# current directory: exit 0 when the behaviour is right.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp"
unset TOOLEXEC_IMPORTPATH
printf '{{"Replace":{{"%s/{pkg}/zz_demo_test.go":"%s/demo_test.go.txt"}}}}' "$PWD" "$here" >"$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 200s -run '^TestZZDemo$' ./{pkg}
'''


def make(id, prop, needs, breaks, pkg, edits, test):
    d = f'/verif/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    out = ''
    files = {}
    for f, old, new in edits:
        src = files.setdefault(f, [open(os.environ.get('SRC', '/repo') + '/' + f).read()] * 2)
        a, b = src
        if b.count(old) != 1:
            sys.exit(f'{id}: {f}: {b.count(old)} matches for {old!r}')
        files[f] = [a, b.replace(old, new)]
    for f, (a, b) in files.items():
        diff = difflib.unified_diff(a.splitlines(True), b.splitlines(True), 'a/' + f, 'b/' + f)
        out += f'diff --git a/{f} b/{f}\n' + ''.join(diff)
    open(d + '/patch.diff', 'w').write(out)
    open(d + '/demo_test.go.txt', 'w').write(test.lstrip('\n'))
    open(d + '/demo.sh', 'w').write(DEMO.format(pkg=pkg))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    print('wrote', id)


if __name__ == '__main__':
    for p in sys.argv[1:]:
        exec(compile(open(p).read(), p, 'exec'), {'make': make})

"""Make /verif/seeded/<id>/ from a description and confirm it in a scratch copy.

usage: plant.py SPEC.py [id ...]     SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new)],
needs, what, demo)]; `demo` is the text of demo.py, which exits non-zero on a wrong answer.
Each change is applied to a copy of /repo; it is kept when the demonstration passes without it and fails
with it and the stable tests pass with it.  Then the check of the property is run with it in /repo.
"""
import json, os, shutil, subprocess, sys, tempfile

PY = '/opt/venv/bin/python'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '#!/bin/sh\nMPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec ' + PY + ' "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **k)


def stable(copy):
    """True when every stable test passes in the copy."""
    base = json.load(open('/opt/vp/BASELINE.json'))
    r = sh([PY, '-m', 'pytest', '-q', '-x', '--no-header', '-p', 'no:cacheprovider', '-n', '7'], copy,
           env=dict(os.environ, PYTHONPATH=copy, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1'))
    if 'unrecognized arguments' in r.stderr:
        r = sh([PY, '-m', 'pytest', '-q', '-x', '--no-header', '-p', 'no:cacheprovider'], copy,
               env=dict(os.environ, PYTHONPATH=copy, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1'))
    return r.returncode == 0, r.stdout[-300:]


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for b in ns['BUGS']:
        if only and b['id'] not in only:
            continue
        tmp = tempfile.mkdtemp(prefix='plant')
        copy = os.path.join(tmp, 'repo')
        try:
            subprocess.run(['cp', '-a', '/repo', copy], check=True)
            dest = os.path.join(tmp, b['id'])
            os.makedirs(dest)
            open(os.path.join(dest, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
            open(os.path.join(dest, 'demo.sh'), 'w').write(SH)
            os.chmod(os.path.join(dest, 'demo.sh'), 0o755)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']},
                      open(os.path.join(dest, 'meta.json'), 'w'), indent=1)
            demo = ['sh', os.path.join(dest, 'demo.sh')]
            r0 = sh(demo, copy)
            if r0.returncode:
                print(b['id'], 'DEMO FAILS UNCHANGED', r0.stdout[-200:], r0.stderr[-400:]); continue
            ok = True
            for f, old, new, *nth in b['edits']:
                p = os.path.join(copy, 'pygfunction', f)
                s = open(p).read()
                if s.count(old) != 1 and not nth:
                    print(b['id'], 'EDIT MATCHES', s.count(old), old[:60]); ok = False; break
                parts = s.split(old)
                n = nth[0] + 1 if nth else 1
                open(p, 'w').write(old.join(parts[:n]) + new + old.join(parts[n:]))
            if not ok:
                continue
            diff = sh(['git', 'diff'], copy).stdout
            open(os.path.join(dest, 'patch.diff'), 'w').write(diff)
            # lines removed must be original ones
            base = sh(['git', 'rev-list', '--max-parents=0', 'HEAD'], copy).stdout.strip()
            f0 = set()
            for f in {e[0] for e in b['edits']}:
                f0 |= set(sh(['git', 'show', f'{base}:pygfunction/{f}'], copy).stdout.splitlines())
            gone = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
            if any(l not in f0 for l in gone):
                print(b['id'], 'TOUCHES LINES OF FIXES', [l for l in gone if l not in f0][:2])
            r1 = sh(demo, copy)
            if r1.returncode == 0:
                print(b['id'], 'DEMO PASSES WITH PATCH', r1.stdout[-200:]); continue
            ok, out = stable(copy)
            if not ok:
                print(b['id'], 'TESTS FAIL', out); continue
            final = os.path.join(VERIF, 'seeded', b['id'])
            shutil.rmtree(final, ignore_errors=True)
            shutil.copytree(dest, final)
            # the check runs against the patched copy: /repo is left alone
            c = sh([PY, 'run.py', b['property'], '--tier', 'quick'], VERIF, env=dict(os.environ, VP_REPO=copy, VERIF_SEED='1'))
            first = [l for l in c.stdout.splitlines() if 'VIOLATION' in l][:1]
            print(b['id'], b['property'], 'CAUGHT' if c.returncode == 1 and first else f'MISSED rc={c.returncode}',
                  '|', (r1.stdout + r1.stderr).strip().splitlines()[-1:][0][:80] if (r1.stdout + r1.stderr).strip() else '', flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    main()

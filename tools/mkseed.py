"""mkseed.py SPEC.py [ID...]: build planted bugs from a spec, confirm them in a scratch copy, run the check on the copy.
SPEC defines SEEDS = [dict(id, prop, edits=[(file, old, new[, nth])], demo, needs, what)]."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', **(env or {}))
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def main():
    sp = importlib.util.spec_from_file_location('spec', sys.argv[1])
    mod = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(mod)
    only = sys.argv[2:]
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for s in mod.SEEDS:
        if only and s['id'] not in only:
            continue
        tmp = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
        cp = tmp + '/repo'
        shutil.copytree('/repo', cp, ignore=shutil.ignore_patterns('.git', '__pycache__', 'plots', 'docs'))
        os.makedirs(cp + '/plots', exist_ok=True)
        try:
            d = tmp + '/demo'
            os.makedirs(d)
            open(d + '/demo.py', 'w').write(s['demo'])
            open(d + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0 when the behaviour is right\nset -e\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
            os.chmod(d + '/demo.sh', 0o755)
            json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['what']), open(d + '/meta.json', 'w'), indent=1)
            ok = sh(['bash', d + '/demo.sh'], cp)
            if ok.returncode:
                print(s['id'], 'REJECT demo fails on clean tree', ok.stdout[-500:], ok.stderr[-800:])
                continue
            git0 = sh(['git', 'init', '-q', '.'], cp)
            sh(['git', 'add', 'AMAT'], cp)
            bad = False
            for e in s['edits']:
                f, old, new = e[:3]
                t = open(cp + '/' + f).read()
                n = t.count(old)
                nth = e[3] if len(e) > 3 else None
                if n == 0 or (nth is None and n != 1):
                    print(s['id'], 'REJECT edit matches %d times: %r' % (n, old[:80]))
                    bad = True
                    break
                parts = t.split(old)
                k = nth or 0
                t2 = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
                open(cp + '/' + f, 'w').write(t2)
            if bad:
                continue
            patch = sh(['git', 'diff', '--no-color'], cp).stdout
            open(d + '/patch.diff', 'w').write(patch)
            b = sh(['bash', d + '/demo.sh'], cp)
            if b.returncode == 0:
                print(s['id'], 'REJECT demo passes with the bug', b.stdout[-300:])
                continue
            chk = subprocess.run(['git', '-C', '/repo', 'apply', '--check', d + '/patch.diff'], capture_output=True, text=True)
            if chk.returncode:
                print(s['id'], 'REJECT patch does not apply', chk.stderr)
                continue
            t = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--ignore=tests/test_telecom.py', '--ignore=tests/test_visibility.py',
                    '--continue-on-collection-errors', '-x', '-n', '0'] if False else
                   [PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--ignore=tests/test_telecom.py', '--ignore=tests/test_visibility.py',
                    '-o', 'junit_family=xunit2', '--junitxml=' + tmp + '/j.xml'], cp, env=dict(PYTHONPATH=cp))
            sh(['python3', '/opt/vp/results.py', tmp + '/r.json', 'junit:' + tmp + '/j.xml'], cp)
            r = json.load(open(tmp + '/r.json'))
            passed = set(r.get('passed', [])) if isinstance(r.get('passed'), list) else {k for k, v in r.items() if v in ('passed', 'pass', True)}
            lost = stable - passed
            if lost:
                print(s['id'], 'REJECT tests fail:', sorted(lost)[:4])
                continue
            out = HERE + '/seeded/' + s['id']
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(d, out)
            c = sh([PY, HERE + '/run.py', s['prop']], cp, env=dict(AMAT_REPO=cp, VERIF_SEED='1', VERIF_TIER='quick'))
            v = [l for l in c.stdout.splitlines() if l.startswith(('VIOLATION', 'INCONCLUSIVE'))]
            h = [l.strip()[:160] for l in c.stdout.splitlines() if l.startswith('   harness')]
            print(s['id'], 'KEPT', 'CAUGHT' if c.returncode == 1 else 'MISSED rc=%d' % c.returncode, (h or v or [c.stderr[-300:]])[0][:200], c.stdout.splitlines()[-1:] )
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    main()

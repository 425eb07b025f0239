"""Makes /verif/seeded/<id>/ from a specification and confirms it in a scratch copy.
Usage: seed.py SPEC.py [--check]   (SPEC.py defines BUGS, a list of dicts: id, prop, subs, demo, needs, breaks)"""
import json, os, shutil, subprocess, sys
ns = {}
exec(open(sys.argv[1]).read(), ns)
check = '--check' in sys.argv
only = [a for a in sys.argv[2:] if not a.startswith('--')]
base = set()
for b in ns['BUGS']:
    if only and b['id'] not in only:
        continue
    d = '/verif/seeded/' + b['id']
    work = '/tmp/seedwork%d' % os.getpid()
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree('/repo', work, symlinks=True)
    ok = True
    for f, old, new in b['subs']:
        p = os.path.join(work, 'pytracer', f)
        s = open(p).read()
        if s.count(old) != 1:
            print(b['id'], 'PATTERN', s.count(old), f, old[:60]); ok = False; break
        base_s = subprocess.run(['git', '-C', '/repo', 'show', '1399dee:pytracer/' + f], stdout=subprocess.PIPE).stdout.decode()
        changed = [l for l in old.split('\n') if l not in new.split('\n')]
        for l in changed:
            if l not in base_s.split('\n') and not any(l in x for x in base_s.split('\n')):
                print(b['id'], 'NOT AN ORIGINAL LINE', l)
        open(p, 'w').write(s.replace(old, new))
    if not ok:
        continue
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(['git', '-C', work, 'diff'], stdout=subprocess.PIPE).stdout
    open(d + '/patch.diff', 'wb').write(diff)
    open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -W ignore "$here/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    r0 = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    r1 = subprocess.run(['bash', d + '/demo.sh'], cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    t = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-m', 'pytest', '-q', '-x', '--timeout=300', '--ignore=tests/pytracer/test_render.py', 'tests'], cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=dict(os.environ, PYTHONPATH=work)) if '--tests' in sys.argv else None
    good = r0.returncode == 0 and r1.returncode != 0
    print(b['id'], 'demo', r0.returncode, r1.returncode, 'OK' if good else 'BAD ' + (r0.stdout if r0.returncode else r1.stdout).decode()[-300:],
          '' if t is None else t.stdout.decode().strip().split('\n')[-1])
    if check and good:
        # the check runs against the scratch copy
        c = subprocess.run(['python3-vt', 'run.py', b['prop'], '--tier', 'quick'], cwd='/verif', stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=dict(os.environ, VERIF_REPO=work))
        out = c.stdout.decode().strip().split('\n')
        print('   check', c.returncode, [l[:200] for l in out if l.startswith('harness') or l.startswith('OK') or l.startswith('VIOL')][:3], flush=True)
    shutil.rmtree(work, ignore_errors=True)

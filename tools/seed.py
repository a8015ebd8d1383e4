"""Confirms a planted change in a scratch copy of /repo and keeps it in seeded/<id>.

seed.py FILE...: each file defines ID, PROPERTY, EDITS [(file, old, new)], DEMO (program), NEEDS, BREAKS.
The change is kept when it builds, passes the stable tests, changes lines of the original repository only, and the program
succeeds without it and fails with it. Prints what the property's check says about it.
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h', '--grep=^base'], capture_output=True, text=True).stdout.split()[-1]


def sh(cmd, cwd, timeout=600, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', CC='gcc', PROJ_NETWORK='OFF', MPLBACKEND='Agg', **env)
    r = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=e, shell=isinstance(cmd, str))
    return r.returncode, r.stdout + r.stderr


def stable(dst):
    xml = dst + '.xml'
    rc, out = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--junitxml=' + xml, '-o', 'junit_family=xunit2', 'geotiepoints/tests'], dst)
    bad = []
    for c in ET.parse(xml).iter('testcase'):
        if any(k.tag in ('failure', 'error') for k in c):
            bad.append('%s::%s' % (c.get('classname'), c.get('name')))
    os.unlink(xml)
    want = json.load(open('/opt/vp/BASELINE.json'))['stable']
    return [b for b in bad if b in want] or ([] if rc in (0, 1) else [out[-500:]])


def main(path):
    d = runpy.run_path(path)
    i, prop = d['ID'], d['PROPERTY']
    dst = '/tmp/w/sd/' + i
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', dst], check=True)
    try:
        for f, old, new in d['EDITS']:
            p = os.path.join(dst, 'geotiepoints', f)
            s = open(p).read()
            if s.count(old) != 1:
                return '%s: %d times %r' % (i, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        patch = sh('git diff', dst)[1]
        # lines that are changed: of the original repository
        for f in {e[0] for e in d['EDITS']}:
            blame = sh(['git', 'blame', '-s', 'HEAD', '--', 'geotiepoints/' + f], dst)[1].splitlines()
            n, mine = 0, []
            for line in patch.split('+++ b/geotiepoints/' + f + '\n')[1].split('diff --git')[0].splitlines():
                m = re.match(r'@@ -(\d+)', line)
                if m:
                    n = int(m.group(1))
                elif line.startswith('-'):
                    mine.append(blame[n - 1].split()[0].lstrip('^'))
                    n += 1
                elif not line.startswith('+'):
                    n += 1
            if any(not BASE.startswith(b[:7]) and not b.startswith(BASE[:7]) for b in mine):
                print('%s: changes lines of fix commits in %s' % (i, f))
        build = open('/opt/vp/build_ext.py').read().replace('"/repo"', repr(dst))
        rc, out = sh([PY, '-c', build], dst)
        if rc:
            return '%s: does not build: %s' % (i, out[-400:])
        bad = stable(dst)
        if bad:
            return '%s: tests fail: %s' % (i, bad[:3])
        out = os.path.join(VERIF, 'seeded', i)
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(patch)
        open(out + '/demo.py', 'w').write(d['DEMO'].lstrip('\n'))
        open(out + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': d['NEEDS'], 'what_it_breaks': d['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
        a, b = sh(['bash', out + '/demo.sh'], '/repo', 300), sh(['bash', out + '/demo.sh'], dst, 300)
        if a[0] or not b[0]:
            shutil.rmtree(out)
            return '%s: demo %d / %d\n%s\n%s' % (i, a[0], b[0], a[1][-600:], b[1][-300:])
        res = []
        for c in [prop] + d.get('ALSO', []):
            rc, o = sh([PY, 'run.py', c, 'quick'], VERIF, 900, VP_REPO=dst)
            res.append('%s %s' % (c, {0: 'MISSED', 1: 'caught'}.get(rc, 'NO ANSWER')) + ('' if rc == 1 else '\n' + '\n'.join(o.splitlines()[-3:])[-500:]))
        return '%s: kept; demo says %s; %s' % (i, b[1].strip().splitlines()[-1][:100], '; '.join(res))
    finally:
        shutil.rmtree(dst, ignore_errors=True)


if __name__ == '__main__':
    for p in sys.argv[1:]:
        print(main(p), flush=True)

"""Verify the planted bugs in seeded/: for every id given (default: all), in a scratch copy of the
repository: the patch applies and only removes lines of the original repository, the tree builds its
tests pass, demo.sh exits 0 without and non-zero with the patch, and say whether the check of the
property named in meta.json catches it.

    python3 tools/seedbug.py [--nocheck] [--others C05,C08] [ID...]
"""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PY = '/opt/venv/bin/python'
BASE = 'f31718d'


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')


def blame_ok(patch):
    """Does the patch remove (or insert next to) lines of the original repository?"""
    cur, line, bad, n = None, 0, [], 0
    for l in open(patch):
        if l.startswith('--- a/'):
            cur = l[6:].strip()
        m = re.match(r'@@ -(\d+)', l)
        if m:
            line = int(m.group(1))
            continue
        if cur is None or l.startswith(('---', '+++', 'diff', 'index')):
            continue
        if l.startswith('-'):
            rc, out = sh(['git', 'blame', '-s', '-L%d,%d' % (line, line), 'HEAD', '--', cur], REPO)
            n += 1
            if not out.lstrip('^').startswith(BASE):
                bad.append('%s:%d' % (cur, line))
            line += 1
        elif l.startswith(' '):
            line += 1
    return n, bad


def main():
    args = sys.argv[1:]
    nocheck = '--nocheck' in args
    args = [a for a in args if a != '--nocheck']
    others = []
    if '--others' in args:
        i = args.index('--others')
        others = args[i + 1].split(',')
        del args[i:i + 2]
    root = os.path.join(HERE, 'seeded')
    for bug in args or sorted(os.listdir(root)):
        d = os.path.join(root, bug)
        meta = json.load(open(os.path.join(d, 'meta.json')))
        n, bad = blame_ok(os.path.join(d, 'patch.diff'))
        msg = []
        if bad or n == 0:
            msg.append('LINES NOT ORIGINAL %s' % (bad or 'none removed'))
        tmp = tempfile.mkdtemp(prefix='seedbug')
        try:
            # the scratch copy keeps the directory name, the demo runs with it as working directory
            work = os.path.join(tmp, 'repo')
            shutil.copytree(REPO, work, symlinks=True)
            demo = os.path.join(tmp, 'demo')
            shutil.copytree(d, demo)
            for f in os.listdir(demo):
                if f.endswith(('.diff', '.patch')) or f == 'meta.json':
                    os.remove(os.path.join(demo, f))
            rc, out = sh('bash %s/demo.sh' % demo, work)
            if rc != 0:
                msg.append('DEMO FAILS CLEAN: ' + out[-600:])
            rc, out = sh(['git', 'apply', os.path.join(d, 'patch.diff')], work)
            if rc != 0:
                msg.append('DOES NOT APPLY: ' + out)
            rc, out = sh('bash %s/demo.sh' % demo, work)
            if rc == 0:
                msg.append('DEMO PASSES PATCHED')
            rc, out = sh([PY, '-W', 'ignore', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'vp_seed', '-p', 'vp_pure', 'test/unittests'],
                         work, env={'PYTHONPATH': work + ':/opt/vp/plugins'})
            tail = out.strip().splitlines()[-1] if out.strip() else ''
            msg.append('tests: ' + tail)
            if not nocheck:
                for pid in [meta['property']] + others:
                    rc, out = sh([PY, 'sim/main.py', 'check', pid, 'quick'], HERE,
                                 env={'VP_REPO': work, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
                    v = [l for l in out.splitlines() if l.startswith('VIOLATION property=%s ' % pid)]
                    msg.append('%s %s' % (pid, 'CAUGHT' if rc == 1 and v else 'missed (rc %d)' % rc))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        print(bug, meta['property'], ' | '.join(msg), flush=True)


main()

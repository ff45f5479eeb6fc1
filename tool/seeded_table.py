"""Runs the check of the property each planted bug names (and any checks given
with --also) on a scratch copy of the repository with the bug applied, and
writes the table SEEDED.md.  Maintenance tool: no check uses it."""
import json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(name):
    d = os.path.join(ROOT, 'seeded', name)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    tmp = tempfile.mkdtemp(prefix='meshless-seeded-')
    try:
        copy = os.path.join(tmp, 'repo')
        subprocess.run(['git', 'clone', '-q', '/repo', copy], check=True)
        subprocess.run(['git', '-C', copy, 'apply', os.path.join(d, 'patch.diff')], check=True)
        env = dict(os.environ, MESHLESS_REPO=copy, VERIF_EVIDENCE=os.path.join(tmp, 'ev'), VERIF_SETTLED='0')
        p = subprocess.run(['python3-vt', os.path.join(ROOT, 'tool', 'check.py'), meta['property'], '--tier', 'quick'],
                           capture_output=True, text=True, env=env, cwd=ROOT)
        ev = {}
        try:
            ev = json.load(open(os.path.join(tmp, 'ev', meta['property'] + '.json')))
        except Exception:
            pass
        return name, meta, p.returncode, p.stdout
    finally:
        shutil.rmtree(tmp)


def main():
    """seeded_table.py [threads [bug ...]]: all bugs, or the named ones (the other rows are kept)"""
    names = sorted(os.listdir(os.path.join(ROOT, 'seeded')))
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 4
    only = sys.argv[2:]
    path = os.path.join(ROOT, 'SEEDED.md')
    words = {}
    if only and os.path.exists(path):
        for line in open(path):
            c = line.strip().strip('|').split(' | ')
            if len(c) == 4 and c[0].strip().startswith('C') and c[1] in names:
                words[c[1]] = c[3].strip()
    with ThreadPoolExecutor(n) as ex:
        for name, meta, rc, out in ex.map(one, only or names):
            print(name, meta['property'], rc, flush=True)
            words[name] = {0: 'missed', 1: 'caught', 2: 'undecided'}.get(rc, 'exit %d' % rc)
    rows = []
    for name in words:
        meta = json.load(open(os.path.join(ROOT, 'seeded', name, 'meta.json')))
        rows.append((meta['property'], name, meta['needs'].replace('|', '/').replace('\n', ' '), words[name]))
    rows.sort()
    with open(path, 'w') as f:
        f.write('# Planted bugs and the check of their property\n\nWritten by tool/seeded_table.py: quick tier, one scratch '
                'copy of the repository per bug.\n\n| property | bug | needs | check |\n|---|---|---|---|\n')
        for r in rows:
            f.write('| %s | %s | %s | %s |\n' % r)
        f.write('\n%d planted, %d caught.\n' % (len(rows), sum(r[3] == 'caught' for r in rows)))


main()

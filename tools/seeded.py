#!/usr/bin/env python3
"""Runs the check of its property against every planted change in seeded/ (in a scratch clone of /repo), and records in
docs/caught.json what each check reported. usage: python3 tools/seeded.py [id...]"""
import json, os, re, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, 'docs', 'caught.json')


def main():
    res = json.load(open(OUT)) if os.path.exists(OUT) else {}
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    res = {k: v for k, v in res.items() if os.path.isdir(os.path.join(HERE, 'seeded', k))}
    with tempfile.TemporaryDirectory(prefix='vt-seeded-') as d:
        w = os.path.join(d, 'repo')
        subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
        for i in ids:
            p = os.path.join(HERE, 'seeded', i)
            prop = json.load(open(os.path.join(p, 'meta.json')))['property']
            subprocess.run(['git', '-C', w, 'apply', os.path.join(p, 'patch.diff')], check=True)
            r = subprocess.run(['python3', os.path.join(HERE, 'check.py'), prop], capture_output=True, text=True, cwd=HERE, env=dict(os.environ, VT_REPO=w))
            ms = re.findall(r'^  \[([^\]]*)\]', r.stdout, re.M)
            res[i] = ms[0] if r.returncode == 1 and ms and 'VIOLATION property=' + prop in r.stdout else None
            print(i, r.returncode, res[i], flush=True)
            subprocess.run(['git', '-C', w, 'checkout', '-q', '--', '.'], check=True)
    json.dump(res, open(OUT, 'w'), indent=1, sort_keys=True)


main()

#!/usr/bin/env python3
"""Runs command-line tools in a scratch directory of their own: one JSON command per line.
{"op": "tools", "files": {name: hex}, "steps": [{"bin", "args", "put": {name: hex}, "read": [name]}]}"""
import json, os, shutil, signal, subprocess, sys, tempfile

LIMIT = int(sys.argv[1]) if len(sys.argv) > 1 else 20


def run(c):
    d = tempfile.mkdtemp(prefix='vp-tools-')
    out = []
    try:
        for s in c['steps']:
            for n, t in s.get('put', {}).items():
                p = os.path.join(d, n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, 'wb').write(bytes.fromhex(t))
            if 'bin' not in s:
                out.append({'rc': 0, 'out': '', 'err': ''}); continue
            try:
                p = subprocess.run([s['bin']] + s['args'], cwd=d, stdin=subprocess.DEVNULL, capture_output=True, timeout=LIMIT)
            except subprocess.TimeoutExpired:
                return {'timeout': 1}
            r = {'rc': p.returncode, 'out': p.stdout.decode('utf-8', 'replace'), 'err': p.stderr.decode('utf-8', 'replace')[-2000:]}
            for n in s.get('read', []):
                q = os.path.join(d, n)
                r.setdefault('files', {})[n] = open(q, 'rb').read().decode('utf-8', 'replace') if os.path.isfile(q) else None
            out.append(r)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {'runs': out}


for line in sys.stdin:
    try:
        sys.stdout.write(json.dumps(run(json.loads(line))) + '\n')
    except Exception as e:
        sys.stdout.write(json.dumps({'badop': repr(e)}) + '\n')
    sys.stdout.flush()

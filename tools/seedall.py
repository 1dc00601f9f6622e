#!/usr/bin/env python3
"""Regenerates the planted bugs: edits a scratch copy of /repo, writes patch.diff, demo and meta."""
import json, os, shutil, subprocess, sys
SD = '/tmp/sd'
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''package main

import (
%s
)

'''
BUGS = []
def bug(id, prop, needs, breaks, edits, scenario, imports=('time', 'github.com/hrygo/gosms/msc_server/zzdemo/wire'), conf=''):
    BUGS.append((id, prop, needs, breaks, edits, scenario, imports, conf, 'demo'))
def cbug(id, prop, needs, breaks, edits, scenario, imports=('time', 'github.com/hrygo/gosms/smc_client/zzdemo/wire', 'github.com/hrygo/gosms/smc_client'), conf=''):
    BUGS.append((id, prop, needs, breaks, edits, scenario, imports, conf, 'demo_client'))

exec(open(os.path.join(ROOT, 'tools', 'seeds_server.py')).read())
exec(open(os.path.join(ROOT, 'tools', 'seeds_client.py')).read())

def main():
    only = sys.argv[1:]
    for id, prop, needs, breaks, edits, scenario, imports, conf, kind in BUGS:
        if only and id not in only: continue
        subprocess.check_call(['git', '-C', SD, 'checkout', '-q', '--', '.'])
        for f, old, new in edits:
            p = os.path.join(SD, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        d = os.path.join(ROOT, 'seeded', id)
        os.makedirs(d, exist_ok=True)
        diff = subprocess.check_output(['git', '-C', SD, 'diff'], text=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'scenario.go'), 'w').write(HEAD % '\n'.join('\t%s"%s"' % ('sms ' if i.endswith('smc_client') else '', i) for i in imports) + scenario.strip() + '\n')
        for f in ('lib.go', 'demo.sh'):
            shutil.copy(os.path.join(ROOT, 'tools', kind, f), d)
        shutil.copy(os.path.join(ROOT, 'sim/harness/wire/wire.go'), d)
        if conf: open(os.path.join(d, 'conf.env'), 'w').write(conf.strip() + '\n')
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        subprocess.check_call(['gofmt', '-w', os.path.join(d, 'scenario.go')])
    subprocess.check_call(['git', '-C', SD, 'checkout', '-q', '--', '.'])
main()

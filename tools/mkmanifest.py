#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the checks there are."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
props = [json.loads(l) for l in open(V + '/properties.jsonl')]

def spec(p):
    n = int(p[1:])
    if p in ('C05',):
        return 'Wire.tla', 'CodecTrace'
    if n in (1, 2, 3, 4):
        return 'Server.tla', 'ServerTrace'
    if p == 'C06':
        return 'Rpc.tla', 'RpcTrace'
    if p == 'C07':
        return 'Hostile.tla', 'HostileTrace'
    if n in (8, 9, 10, 11, 12, 33):
        return 'Client.tla', 'ClientTrace'
    if n == 27:
        return 'Rpc.tla', 'RpcTrace'
    if n == 28:
        return 'Listener.tla', 'ListenerTrace'
    if n == 29:
        return 'Wire.tla and Server.tla', 'CodecTrace, ServerTrace, RpcTrace, ClientTrace, for the code in use and the code the generator makes'
    return 'Ufs.tla', 'UfsTrace'

checks, na = [], []
for p in props:
    i = p['id']
    if i not in check.CHECKS:
        na.append(dict(property=i, reason='The check is not built yet.'))
        continue
    s, t = spec(i)
    checks.append(dict(
        property=i, quick_cmd='python3 check.py ' + i,
        thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i,
        technique='TLA+ specification %s model checked with TLC; runs of the real code validated against it (%s)' % (s, t),
        level='model_checking',
        level_note='The specification satisfies the property for all behaviours within small bounds (exhaustive, TLC). The '
                   'code is bound to it by trace validation: every run of the real, unmodified code on stimuli generated '
                   'from the specification, at random and systematically, has to be a behaviour of the specification. Assurance for the code '
                   'extends to the runs explored, which the evidence counts. Trusted: TLC, the Go harness that records, '
                   'the Linux kernel for the host file system.'))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
               notes='No hooks: the checks use the exported API only. VERIF_SEED selects all random choices.'),
          open(V + '/MANIFEST.json', 'w'), indent=1)

#!/usr/bin/env python3
"""replay.py <file>: runs a recorded violation again. Exit 1 and a VIOLATION line if it happens exactly as
recorded, 0 if the property holds on it, 2 if it is violated in another way."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, simdrv as S, registry


def work(doc):
    mod = registry.module(doc['property'])
    return mod.replay(doc, S.runner(), doc['bins'])


def main():
    doc = json.load(open(sys.argv[1]))
    mod = registry.module(doc['property'])
    doc['bins'] = mod.build(doc['property']) if hasattr(mod, 'build') else build.tools()
    with S.Farm(build.libsim(), 1) as F:
        v, dg = list(F.map(work, [doc]))[0]
    if v is None:
        print('the property holds on this schedule')
        return 0
    print('%s: %s' % tuple(v))
    for f in doc['faults'][:20]:
        print('    ' + f)
    if dg != doc['digest'] or v[0] != doc['verdict'][0]:
        print('violated, but the execution differs from the recorded one')
        return 2
    print('VIOLATION property=%s replay=%s' % (doc['property'], os.path.abspath(sys.argv[1])))
    return 1


if __name__ == '__main__':
    sys.exit(main())

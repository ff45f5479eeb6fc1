"""Command line: python3-vt /verif/tool/check.py <property id> [--tier quick|thorough]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

import framework as fw
import registry


def main(argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    ids = []
    i = 0
    while i < len(argv):
        if argv[i] == '--tier':
            tier = argv[i + 1]
            i += 1
        else:
            ids.append(argv[i])
        i += 1
    if ids == ['all']:
        ids = sorted(registry.SPECS)
    status = 0
    for pid in ids:
        if pid not in registry.SPECS:
            print('unknown property %s' % pid)
            return 2
        status = max(status, fw.run_property(pid, registry.SPECS[pid], tier))
    return status


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))

#!/usr/bin/env python3
"""run.py Cxx: run the check of one property (tier and seed from the environment)."""
import importlib, os, sys, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, 'tools'), os.path.join(V, 'checks')]
import vlib

WHERE = {'C01': 'tree', 'C02': 'total', 'C03': 'scan', 'C04': 'scan', 'C05': 'scan', 'C06': 'filter', 'C07': 'lang',
         'C08': 'tree', 'C09': 'lang', 'C10': 'relate', 'C11': 'tree', 'C12': 'relate', 'C13': 'engines', 'C14': 'tree',
         'C15': 'patterns', 'C16': 'lalrgen', 'C17': 'lalrgen', 'C18': 'artefacts', 'C19': 'readers', 'C20': 'wasm',
         'C21': 'pure', 'C22': 'expr', 'C23': 'wasm'}


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ['VERIF_TIER'] = sys.argv[2]
    try:
        chk = vlib.Check(pid)
        mod = importlib.import_module(WHERE[pid])
        getattr(mod, 'check_' + pid)(chk)
        return chk.finish()
    except vlib.ToolError as e:
        print('TOOL ERROR:', e, flush=True)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())

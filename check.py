#!/opt/venv/bin/python
"""check.py <property> : decide one property (tier from VERIF_TIER, or --thorough)."""
import os
import sys
import traceback

sys.dont_write_bytecode = True
for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
    os.environ.setdefault(_v, '1')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vlib import core, registry  # noqa: E402


def main():
    prop = sys.argv[1]
    thorough = '--thorough' in sys.argv[2:] or os.environ.get('VERIF_TIER') == 'thorough'
    if '--quick' in sys.argv[2:]:
        thorough = False
    rep = core.Report(prop, 'thorough' if thorough else 'quick')
    try:
        core.load_pyorb()
    except Exception as ex:  # the library cannot even be imported
        traceback.print_exc()
        rep.violation(f'pyorb cannot be imported: {type(ex).__name__}: {ex}', dict(kind='import'))
        return rep.finish()
    registry.run(prop, rep, thorough)
    return rep.finish()


if __name__ == '__main__':
    sys.exit(main())

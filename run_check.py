#!/usr/bin/env python3
"""run_check.py <property id>: decide one property on the current tree of /repo (static analysis; nothing is run)."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sa'))
import checks
from props import registry


def main():
    pid = sys.argv[1]
    ck = checks.Check(pid)
    try:
        try:
            checks.watchdog(int(os.environ.get('SA_TIME', '600')))
            registry.CHECKS[pid](ck)
            checks.signal.alarm(0)
        except checks.OutOfTime:
            ck.row('the analysis completes within its time budget', 'undecided', 'stopped; the rows above are what had been decided')
        except checks.AnalysisError: raise
        except Exception:
            checks.signal.alarm(0)
            ck.row('the analysis completes', 'undecided', 'internal error: ' + traceback.format_exc()[-600:])
            sys.stderr.write(traceback.format_exc())
        return ck.finish()
    except checks.AnalysisError as e:
        print('ANALYSIS-BROKEN %s: %s' % (pid, e)); return 2


if __name__ == '__main__':
    sys.exit(main())

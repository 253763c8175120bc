#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property on /repo's current source."""
import importlib
import os
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from ion import facts
from ion.facts import AnalysisBroken
from ion.report import Report
from ion.checks import CHECKS

LIMIT = (600, 780)      # seconds: a check never runs into the 900 s a caller grants it


AFTER = 60              # seconds a check goes on after it has found a violation


class TimeUp(BaseException):
    pass


def expired(*_):
    raise TimeUp()


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    rep = Report(prop, tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    try:
        D = facts.extract()
    except AnalysisBroken as e:
        print("ERROR: the source could not be analysed: %s" % e)
        return 2
    from ion.engine import Giveup
    todo = len(CHECKS[prop])
    end = time.time() + LIMIT[tier == "thorough"]

    def violated():
        """The answer is known; what else is wrong is collected for a while only."""
        nonlocal end
        end = min(end, time.time() + AFTER)
        signal.setitimer(signal.ITIMER_REAL, max(1.0, end - time.time()))
    rep.on_violation = violated
    signal.signal(signal.SIGALRM, expired)
    for modname, fname in CHECKS[prop]:
        from ion import domain, engine, values
        domain.reset()
        domain.DEEP[0] = False
        signal.setitimer(signal.ITIMER_REAL, max(1.0 if rep.viol else 20.0, (end - time.time()) / todo))
        todo -= 1
        try:
            m = importlib.import_module("ion.checks." + modname)
            getattr(m, fname)(D, rep, tier)
        except (AnalysisBroken, Giveup) as e:
            rep.broken.append("%s.%s: %s" % (modname, fname, e))
        except TimeUp:
            rep.broken.append("%s.%s: out of time; what was decided before that counts" % (modname, fname))
        except Exception:
            rep.broken.append("%s.%s: internal error %s" % (modname, fname, traceback.format_exc(limit=-6)))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    return rep.finish()


if __name__ == "__main__":
    sys.exit(main())

import argparse, importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks'))
import lib, build


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    rep = lib.Report(a.prop, a.tier)
    info = dict(level='other', rule='', assumptions=[], explanation='the analysis did not complete')
    try:
        info = importlib.import_module(a.prop.lower()).run(rep)
    except lib.Missing as e:
        rep.undecided['anchor missing: the analysis cannot find %s in the current source' % e] = 1
        print('UNDECIDED: anchor missing: %s' % e)
    except build.BuildError as e:
        rep.violation('build', str(e)[-1500:])
    except Exception as e:      # the source has a form the analysis was not written for: no verdict
        traceback.print_exc(limit=-3)
        rep.undecided['analyser: %s: %s' % (type(e).__name__, e)] = 1
        print('UNDECIDED: analyser: %s: %s' % (type(e).__name__, e))
    return lib.finish(rep, **info)


if __name__ == '__main__':
    sys.exit(main())

import argparse
import os
import sys
import warnings


def run():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--only')
    a = ap.parse_args()
    warnings.simplefilter('ignore')
    repo = os.environ.get('VF_REPO', '/repo')
    import galgebra
    assert os.path.realpath(galgebra.__file__).startswith(os.path.realpath(repo) + '/'), galgebra.__file__
    # everything is imported once, before the workers are forked
    try:
        import galgebra.ga, galgebra.mv, galgebra.lt, galgebra.dop, galgebra.printer, galgebra.gprinter  # noqa
        import galgebra.interop  # noqa
        import sympy  # noqa
    except Exception as e:
        print('VIOLATION property=%s replay=import-failure' % a.prop)
        print('galgebra does not import: %s: %s' % (type(e).__name__, e))
        return 1
    from vf import core
    return core.main(a.prop, a.tier, replay=a.replay, verbose=a.v, only=a.only)


if __name__ == '__main__':
    sys.exit(run())

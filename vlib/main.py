"""Entry point: python -m vlib.main <property>."""
import importlib, os, sys, traceback, warnings

warnings.simplefilter('ignore')

from vlib.common import Check, MachineryError, REPO, VERIF

PROPS = {
    'P01': 'drivers.iterators', 'P02': 'drivers.iterators',
    'P03': 'drivers.trainer', 'P04': 'drivers.trainer',
    'P05': 'drivers.trainer', 'P06': 'drivers.trainer',
    'P07': 'drivers.vocab', 'P08': 'drivers.vocab',
    'P09': 'drivers.modelfile',
    'P10': 'drivers.textscore', 'P11': 'drivers.history', 'P12': 'drivers.scorecmd',
    'P13': 'drivers.decoder', 'P14': 'drivers.decoder', 'P15': 'drivers.lattices',
    'P16': 'drivers.rescored', 'P17': 'drivers.latticebatch', 'P18': 'drivers.sampler',
    'P19': 'drivers.classes', 'P20': 'drivers.update', 'P21': 'drivers.noise',
    'P22': 'drivers.layers',
}


def main():
    prop = sys.argv[1]
    chk = Check(prop)
    # Compiled Theano modules go to a private scratch directory: the check
    # neither depends on nor changes the repository's own cache.
    os.environ['THEANO_FLAGS'] = theano_flags(chk)
    sys.path.insert(0, REPO)
    try:
        mod = importlib.import_module(PROPS[prop])
        mod.run(chk)
        rc = chk.finish()
    except MachineryError as e:
        print('MACHINERY ERROR: %s' % e, file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        chk.cleanup()
    sys.stdout.flush()
    os._exit(rc)


def theano_flags(chk):
    # No C compiler: Theano evaluates its graphs with its Python and NumPy
    # implementations, which needs no compilation for the tiny networks here.
    return 'compiledir=%s/theano,cxx=,device=cpu' % chk.scratch


if __name__ == '__main__':
    main()

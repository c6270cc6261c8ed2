"""Import the package under test with the right extensions."""
import importlib.util
import json
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
for _k, _v in (('OMP_NUM_THREADS', '1'), ('OPENBLAS_NUM_THREADS', '1'), ('MPLBACKEND', 'Agg')):
    os.environ.setdefault(_k, _v)
sys.path.insert(0, REPO)


class _Finder(object):
    def __init__(self, paths):
        self.paths = paths

    def find_spec(self, name, path=None, target=None):
        for key, so in self.paths.items():
            if name == 'atooms.postprocessing.%s_wrap' % key:
                from importlib.machinery import ExtensionFileLoader
                return importlib.util.spec_from_file_location(name, so, loader=ExtensionFileLoader(name, so))
        return None


if 'VERIF_SO' in os.environ:
    sys.meta_path.insert(0, _Finder(json.loads(os.environ['VERIF_SO'])))

import warnings
warnings.filterwarnings('ignore')
import numpy
numpy.seterr(all='ignore')
import atooms.postprocessing as pp
if not os.path.abspath(pp.__file__).startswith(os.path.abspath(REPO) + '/'):
    raise RuntimeError('wrong package under test: ' + pp.__file__)

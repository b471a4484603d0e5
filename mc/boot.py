"""Import phyem (from /repo's working tree) in a sandbox without display, plotting windows or threads."""
import os
import sys

for _k in ('OMP_NUM_THREADS', 'MKL_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'NUMEXPR_NUM_THREADS'):
    os.environ[_k] = '1'
os.environ.setdefault('OMPI_ALLOW_RUN_AS_ROOT', '1')
os.environ.setdefault('OMPI_ALLOW_RUN_AS_ROOT_CONFIRM', '1')
os.environ.setdefault('OMPI_MCA_btl', 'self,vader')
os.environ.setdefault('OMPI_MCA_btl_vader_single_copy_mechanism', 'none')
sys.dont_write_bytecode = True

import warnings
warnings.filterwarnings('ignore')

import matplotlib
_use = matplotlib.use
matplotlib.use = lambda *a, **k: _use('Agg')
_use('Agg')

PHYEM_ROOT = os.environ.get('PHYEM_ROOT', '/opt/phyem_root')
if PHYEM_ROOT not in sys.path:
    sys.path.insert(0, PHYEM_ROOT)

import numpy as np
np.seterr(all='ignore')
import phyem as ph

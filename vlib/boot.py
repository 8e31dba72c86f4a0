"""Process set-up shared by every check: thread caps, the code under test (always /repo's working tree)."""
import os, sys, warnings, logging
for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
warnings.simplefilter("ignore")
import numpy as np
np.seterr(all="ignore")
import dfols
assert os.path.realpath(os.path.dirname(os.path.dirname(dfols.__file__))) == os.path.realpath(REPO), dfols.__file__
import dfols.solver, dfols.controller, dfols.model, dfols.util, dfols.trust_region, dfols.params
warnings.simplefilter("ignore")
logging.getLogger("dfols").setLevel(logging.CRITICAL + 1)
logging.getLogger("dfols").propagate = False

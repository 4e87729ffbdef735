"""The soepy entry points the monitors drive.  Only names that the repository's own
tests import are used, so behaviour-preserving edits cannot remove them."""
import os
import sys

os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
REPO = os.environ.get("SOEPY_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import jax  # noqa: E402

if os.environ.get("MON_X64", "1") == "1":
    jax.config.update("jax_enable_x64", True)

import numpy as np  # noqa: E402

import soepy  # noqa: E402
from soepy.exogenous_processes.children import gen_prob_child_vector  # noqa: E402
from soepy.exogenous_processes.partner import gen_prob_partner  # noqa: E402
from soepy.pre_processing.model_processing import read_model_params_init  # noqa: E402
from soepy.pre_processing.model_processing import read_model_spec_init  # noqa: E402
from soepy.simulate.simulate_python import get_simulate_func  # noqa: E402,F401
from soepy.simulate.simulate_python import simulate  # noqa: E402
from soepy.solve.create_state_space import create_state_space_objects  # noqa: E402
from soepy.solve.solve_python import pyth_solve  # noqa: E402

assert os.path.realpath(soepy.__file__).startswith(os.path.realpath(REPO)), soepy.__file__


class CodeUnderTestError(Exception):
    """soepy raised on an input that the property covers."""


def call(fn, *a, **k):
    try:
        return fn(*a, **k)
    except Exception as e:  # noqa: BLE001
        import traceback

        raise CodeUnderTestError(
            f"{type(e).__name__}: {e} | " + " <- ".join(
                f"{os.path.basename(f.filename)}:{f.name}"
                for f in reversed(traceback.extract_tb(e.__traceback__)[-4:])
            )
        ) from e


def sim(world, biased=False, sparse=False, raw=False):
    """simulate() on a written world -> plain DataFrame with Identifier/Period columns."""
    df = call(
        simulate, world.params, world.spec, biased_exp=biased, data_sparse=sparse
    )
    return df if raw else df.reset_index()


class Solution:
    pass


def solve(world, biased=False):
    """Solve through the public building blocks; index the result by state."""
    s = Solution()

    def go():
        df, s.params = read_model_params_init(world.params)
        s.spec = read_model_spec_init(world.spec, df)
        s.prob_child = gen_prob_child_vector(s.spec)
        s.prob_partner = gen_prob_partner(s.spec)
        (s.states, s.indexer, s.covariates, s.rule, s.child_idx) = create_state_space_objects(s.spec)
        u, e = pyth_solve(
            states=s.states, covariates=s.covariates, child_state_indexes=s.child_idx,
            model_params=s.params, model_spec=s.spec, prob_child=s.prob_child,
            prob_partner=s.prob_partner, biased_exp=biased,
        )
        s.nonc = np.asarray(u)
        s.emax = np.asarray(e)

    call(go)
    return s

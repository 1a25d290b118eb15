"""Import paths: the code under verification is /repo's working tree, nothing else."""
import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def boot():
    sys.dont_write_bytecode = True
    for k, v in dict(JAX_PLATFORMS="cpu", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", TQDM_DISABLE="1", BILBY_ALLOW_PARAMETERS_AS_STATE="FALSE", XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1").items():
        os.environ.setdefault(k, v)
    for p in (VERIF, REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    vt = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if vt not in sys.path:
        sys.path.append(vt)
    if not os.path.exists(os.path.join(REPO, "gwpopulation", "_version.py")):
        m = types.ModuleType("gwpopulation._version")
        m.__version__ = "0"
        m.version = "0"
        sys.modules["gwpopulation._version"] = m
    import logging

    logging.disable(logging.WARNING)
    import gwpopulation

    f = os.path.abspath(gwpopulation.__file__)
    assert f.startswith(os.path.abspath(REPO) + os.sep), f
    import contracts

    contracts.load()

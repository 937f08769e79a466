"""All checks."""
from .checks_phys import REG
from . import checks_phys, checks_inv, checks_state, checks_io, checks_ver    # noqa: F401  (register themselves)

ASSUME = [
    'The Python, NumPy, SciPy, Matplotlib, ASE and pymatgen operations the package uses behave as documented (modelled in '
    'occustat/npmod.py, pymod.py, extmod.py).',
    'Arithmetic is exact (rounding is out of scope; see C33 and C34 under not_applicable).',
    'A violation is reported only together with a concrete assignment of the input quantities at which the extracted formula '
    'and the required one differ (or a raise site, effect or missing construct).',
]
from .explain import EXPLAIN as _E      # noqa: E402
EXPLAIN = {k: v[1] for k, v in _E.items()}

"""What every simulated run has in common, inside its forked process."""

import random
import warnings

import numpy as np

_real_urandom = random._urandom


def pin_entropy(entropy):
    """All randomness of the run, seeded or not, comes from ``entropy``."""
    src = random.Random(f"entropy-{entropy}")
    random._urandom = lambda n: src.randbytes(n)
    np.random.seed(entropy % (2**32))
    random.seed(entropy)
    warnings.simplefilter("default")


def outcome(fn):
    """('ok', value) or ('exc', type name, message) - never raises."""
    try:
        return ["ok", fn()]
    except BaseException as e:  # noqa: BLE001
        return ["exc", type(e).__name__, str(e)[:300]]

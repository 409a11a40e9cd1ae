"""One module per property."""
from sim import registry as R

SLOW = {"PINSGA2": 0.1, "KGB": 0.3, "Optuna": 0.3}


def pick_algo(rng, i, names=None, weights=SLOW):
    """Every algorithm in turn first, then at random (the slow ones less often)."""
    names = names or R.NAMES
    while True:
        n = names[i % len(names)] if i < 2 * len(names) else rng.choice(names)
        if i < 2 * len(names) or rng.random() < weights.get(n, 1.0):
            return n

"""A deterministic decision maker for PINSGA2."""
from pymoo.algorithms.moo.pinsga2 import AutomatedDM


class SumDM(AutomatedDM):
    """Prefers the smaller sum of objectives; answers in the format the ranking type asks for."""

    def __init__(self, ranking_type="pairwise"):
        super().__init__()
        self.ranking_type = ranking_type

    def makeDecision(self, F):
        import numpy as np
        s = [float(v) for v in np.asarray(F).sum(axis=1)]
        if self.ranking_type == "pairwise":
            return "c" if s[0] == s[1] else ("a" if s[0] < s[1] else "b")
        order = sorted(range(len(s)), key=lambda i: (s[i], i))
        ranks = [0] * len(s)
        for pos, i in enumerate(order):
            ranks[i] = pos + 1
        return np.array(ranks)

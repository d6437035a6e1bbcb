"""M01: Kullback-Leibler and Jensen-Shannon figures."""
import diverge


def run(chk):
    diverge.run(chk, ["KL", "JSD"], 40)

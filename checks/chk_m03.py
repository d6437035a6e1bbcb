"""M03: expected-value error, and the evaluation points of all three metrics."""
import diverge


def run(chk):
    diverge.run(chk, ["EVMSE", "KL", "JSD"], 25)

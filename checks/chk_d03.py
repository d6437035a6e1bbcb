"""D03: mixtures."""
import dist


def run(chk):
    dist.run(chk, ["mix", "gmm"] * 1, {"Eval"})

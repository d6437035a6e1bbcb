"""D02: densities against their definition, through moment changes."""
import dist


def run(chk):
    dist.run(chk, [f for f in dist.FAMS if f not in ("mix", "gmm")], {"Eval"})

"""D01: batches, shapes and purity of density evaluation."""
import dist


def run(chk):
    dist.run(chk, list(dist.FAMS), {"Eval"})

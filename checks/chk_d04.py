"""D04: draws against the density in force."""
import dist


def run(chk):
    dist.run(chk, [f for f in dist.FAMS if dist.FAMS[f][1]], {"Draw"})

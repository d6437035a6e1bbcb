import tree


def run(chk):
    tree.run(chk)

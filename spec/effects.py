def fill(a, b):
    a[:, :] = b


def callback(ppc, *args):
    return ppc

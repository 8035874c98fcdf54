from matplotlib.pyplot import get_cmap


def __getattr__(name):
    return get_cmap(name)

"""Stand-in for the plotting library: keeps what is drawn and writes it to the file the figure is saved to."""
rcParams = {}


def use(backend, *a, **k):
    pass

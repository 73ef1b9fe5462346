"""Stand-in for matplotlib.colors: hexadecimal colours and tuples."""


def to_rgba(c):
    if isinstance(c, str):
        if not c.startswith("#") or len(c) not in (7, 9):
            raise ValueError(c)
        v = [int(c[k:k + 2], 16) / 255 for k in range(1, len(c), 2)]
    else:
        v = [float(x) for x in c]
    if len(v) == 3:
        v.append(1.0)
    return tuple(v)

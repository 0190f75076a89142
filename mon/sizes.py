"""How many: usually few, once in a while a good deal more."""

MANY = [9, 12, 17, 25, 40]


def few(rng, n, p=.02):
    """-> like rng.randrange(n), but sometimes many"""
    if rng.random() < p:
        return rng.choice(MANY)
    return rng.randrange(n)


def more_keys(rng, keys, p=.02):
    """-> the keys, and sometimes many others"""
    if rng.random() < p:
        n = rng.choice(MANY)
        return list(keys) + ["key%d" % i for i in range(n)]
    return list(keys)

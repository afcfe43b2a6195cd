def same(x):
    return x


def anything():
    raise NotImplementedError()      # replaced by a table in the check that uses it

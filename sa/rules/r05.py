"""R05: the algorithms on forests compare, copy and write down shapes exactly."""
import falg


def run(ck):
    return falg.check(ck)

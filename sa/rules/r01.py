"""R01: the nodes of a forest are deleted exactly once, and none is lost."""
import forest


def run(ck):
    return forest.check(ck, 'own', (
        'Abstract interpretation of every operation over abstract heaps: the nodes around the place of the operation, '
        'with every neighbourhood it can have, and everything else left open; what passes over a whole forest, over '
        'every forest up to a number of nodes. On every path, also when user code throws, each node that leaves the '
        'forest is deleted exactly once after its value was destroyed, no other node is deleted, none is used after '
        'that, and no node or value that was made is lost. '))

"""R02: an operation on a forest changes the order of edges as it says and nothing else."""
import forest


def run(ck):
    return forest.check(ck, 'put', (
        'Abstract interpretation of every operation over abstract heaps: the nodes around the place of the operation, '
        'with every neighbourhood it can have, and everything else left open; what passes over a whole forest, over '
        'every forest up to a number of nodes. On every path the links of all nodes in the heap are those that the '
        'model of the operation gives, in both directions, the result is the edge that it gives, new nodes have the '
        'values that were given, and an insertion that fails leaves the forest as it was. '))

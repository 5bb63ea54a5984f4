"""R03: the size that a forest keeps is the number of its nodes."""
import forest


def run(ck):
    return forest.check(ck, 'size', (
        'Abstract interpretation of every operation over abstract heaps: the nodes around the place of the operation, '
        'with every neighbourhood it can have, and everything else left open; what passes over a whole forest, over '
        'every forest up to a number of nodes. Sizes are linear expressions: after every operation, with every size '
        'known or unknown before, the size is unknown or exactly the number of nodes, and size() counts when it is '
        'unknown. '))

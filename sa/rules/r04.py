"""R04: ++ and -- of every iterator of a forest are inverse steps along its order."""
import forest


def run(ck):
    return forest.check(ck, 'walk', (
        'Abstract interpretation of every operation over abstract heaps: the nodes around the place of the operation, '
        'with every neighbourhood it can have, and everything else left open; what passes over a whole forest, over '
        'every forest up to a number of nodes. Every kind of iterator is made at an edge and led to the next one and '
        'back, in every neighbourhood: the places, values, depths and comparisons are those of its order; passes from '
        'begin to end visit every small forest in order. '))

"""C06: back-pressure."""
import common
import steps


def run(ck):
    p = common.load(ck, ['w_channel.cpp'])
    steps.analyse(ck, p, 'C06')
    for k, n in (('suspend', 1), ('release-upstream', 1), ('room', 1), ('free-buffer', 10), ('pop', 2), ('step', 30)):
        ck.require(k, n)
    return ck.finish('Every path of every step: who goes on without waiting saw room in the buffers of its receivers; who takes a value from a queue that was full tells its upstream process once to go on.')

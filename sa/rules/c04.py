"""C04: A close is taken last."""
import common
import steps


def run(ck):
    p = common.load(ck, ['w_channel.cpp'])
    steps.analyse(ck, p, 'C04')
    for k, n in (('close-taken', 1), ('downstream-end', 1), ('process-end', 1), ('process-close', 1), ('step', 30), ('free-buffer', 4)):
        ck.require(k, n)
    return ck.finish('Every path of every step of every kind of process: the close is taken in a critical section that saw the queue empty, the process is told once, and then destroyed and its receivers closed.')

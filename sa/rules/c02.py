"""C02: a process is run by one thread at a time."""
import common
import process


def run(ck):
    p = common.load(ck, ['w_channel.cpp'])
    process.analyse(ck, p, ('overlap', 'order'))
    need(ck)
    return ck.finish('Token protocol of the running latch, decided on every path of every function that can start a process and of every closure '
                     'that is handed to its executor: the right to run a process is won in one critical section, given away at most once, and '
                     'the process is not called after that.')


def need(ck):
    for k, n in (('send', 20), ('close', 20), ('ready', 20), ('step', 20), ('append', 1), ('schedule', 2), ('drop', 1), ('process-call', 3),
                 ('release', 1), ('suspend', 1)):
        ck.require(k, n)

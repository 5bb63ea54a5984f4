"""C07: delivery."""
import common
import steps


def run(ck):
    p = common.load(ck, ['w_channel.cpp'])
    steps.analyse(ck, p, 'C07')
    for k, n in (('append', 2), ('front', 2), ('pop', 2), ('argument', 3), ('process-value', 2), ('broadcast', 1), ('send', 1), ('pass-on', 1), ('settled', 1), ('step', 30)):
        ck.require(k, n)
    return ck.finish('Every path of every sender and step: what is sent is appended once at the end of its queue, taken once from the front in one critical section, given to the process once in argument order, and its result is sent once to every receiver.')

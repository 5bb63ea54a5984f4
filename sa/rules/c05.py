"""C05: errors."""
import common
import steps


def run(ck):
    p = common.load(ck, ['w_channel.cpp'])
    steps.analyse(ck, p, 'C05')
    for k, n in (('throw', 3), ('send', 1), ('set-error', 1), ('process-close', 1), ('argument', 3), ('step', 30)):
        ck.require(k, n)
    return ck.finish('Every path of every step: an error received is given to the process or closes it, never mixed with values; an exception thrown by the process is sent to the receivers and does not leave the step.')

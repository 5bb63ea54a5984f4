"""C03: nothing that is sent to a process is stranded in its queue."""
import common
import process
from rules.c02 import need


def run(ck):
    p = common.load(ck, ['w_channel.cpp'])
    process.analyse(ck, p, ('stranded',))
    need(ck)
    return ck.finish('Token protocol of the running latch, decided on every path: whoever queues something while no step is running schedules one; '
                     'a step ends by scheduling the next one, by leaving the process suspended for its receivers, or by declaring it idle in a critical '
                     'section in which nothing was pending.')

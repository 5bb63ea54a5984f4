"""T01: a task owns exactly one callable, and what it was moved to owns it."""
import tasks


def run(ck):
    tasks.check(ck, tasks.RULES['T01'])
    return ck.finish('Object lifetimes on every path of one program for each operation of a task, for empty tasks, callables that fit in the task and '
                     'callables that do not, with the dispatch pointers propagated as constants: every callable is destroyed exactly once, by a task '
                     'that knows its type, none is made over another, and one that is stored in the task has the room and the alignment that it needs.')

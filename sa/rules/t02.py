"""T02: what a call, a test and target() of a task give."""
import tasks


def run(ck):
    tasks.check(ck, tasks.RULES['T02'])
    ck.require('calls', 40)
    ck.require('truth', 20)
    ck.require('thrown', 6)
    ck.require('same', 5)
    ck.require('points', 4)
    ck.require('type', 4)
    return ck.finish('Constant propagation of the dispatch pointers through one program for each operation of a task: a call calls the callable that the '
                     'task was given or moved, with the arguments, and lets its exception out; an empty task, also one made of a null function, tests false, '
                     'and its call throws bad_function_call (terminates if the task is noexcept); target() finds the callable by its exact type only.')

"""Tasks in processes of their own: a task that dies, hangs or takes all its memory spoils nothing but itself."""

import multiprocessing
import multiprocessing.connection
import resource
import sys
import time

DIED = object()
LATE = object()


def child(function, task, pipe, memory):
    resource.setrlimit(resource.RLIMIT_AS, (memory, memory))
    try:
        pipe.send(function(task))
    except BaseException as error:      # told to the parent as a death
        print(f'{type(error).__name__}: {error}'[:300], file=sys.stderr)
    pipe.close()


def run(function, tasks, processes=8, seconds=60, memory=4 * 1024 ** 3, deadline=None):
    """Pairs (task, result) as they come; result is DIED or LATE for those that gave none"""
    context = multiprocessing.get_context('fork')
    waiting = iter(tasks)
    running = {}
    exhausted = False
    try:
        while True:
            while not exhausted and len(running) < processes and (deadline is None or time.time() < deadline):
                try:
                    task = next(waiting)
                except StopIteration:
                    exhausted = True
                    break
                mine, other = context.Pipe(duplex=False)
                process = context.Process(target=child, args=(function, task, other, memory), daemon=True)
                process.start()
                other.close()
                running[mine] = (process, task, time.time() + seconds)
            if not running:
                return
            now = time.time()
            if deadline is not None and now >= deadline:
                return
            until = min(late for _, _, late in running.values())
            if deadline is not None:
                until = min(until, deadline)
            for pipe in multiprocessing.connection.wait(list(running), timeout=max(until - now, 0.01)):
                process, task, _ = running.pop(pipe)
                try:
                    result = pipe.recv()
                except EOFError:
                    result = DIED
                pipe.close()
                process.join()
                yield task, result
            now = time.time()
            for pipe in [pipe for pipe, (_, _, late) in running.items() if late <= now]:
                process, task, _ = running.pop(pipe)
                process.kill()
                process.join()
                pipe.close()
                yield task, LATE
    finally:
        for pipe, (process, _, _) in running.items():
            process.kill()
            process.join()
            pipe.close()

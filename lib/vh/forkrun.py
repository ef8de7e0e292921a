"""Run scenarios in forked, killable process groups and watch their progress.

A scenario is a function ``f(beat)``; it returns a picklable result.  ``beat``
is called whenever progress is made (also from processes that the scenario
forks: it appends one byte to a shared file).  A scenario counts as stalled
only if nothing made progress for ``stall_s`` seconds while the observing
loop itself kept being scheduled (a canary against an overloaded machine).
"""
import os
import pickle
import random
import signal
import tempfile
import threading
import time
import traceback

from vh.core import scratch, repo_frames


def children_of_group(pgid):
    out = []
    for pid in os.listdir('/proc'):
        if not pid.isdigit():
            continue
        try:
            with open('/proc/{}/stat'.format(pid)) as f:
                fields = f.read().rsplit(')', 1)[1].split()
            if int(fields[2]) == pgid:
                out.append(int(pid))
        except (OSError, IndexError):
            pass
    return out


class Beat(object):
    def __init__(self, path):
        self.path = path
        self.fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)

    def __call__(self, tag=b'.'):
        os.write(self.fd, tag)


def _child(func, path, chaos_seed):
    os.setsid()
    pgid = os.getpgrp()
    beat = Beat(path + '.beat')
    stop = threading.Event()
    n_stops = [0]

    def chaos():
        rnd = random.Random(chaos_seed)
        me = os.getpid()
        while not stop.is_set():
            time.sleep(rnd.uniform(0.01, 0.05))
            pids = [p for p in children_of_group(pgid) if p != me]
            if not pids:
                continue
            pid = rnd.choice(pids)
            try:
                os.kill(pid, signal.SIGSTOP)
                n_stops[0] += 1
                time.sleep(rnd.uniform(0.005, 0.06))
            except OSError:
                pass
            finally:
                try:
                    os.kill(pid, signal.SIGCONT)
                except OSError:
                    pass

    thread = None
    if chaos_seed is not None:
        thread = threading.Thread(target=chaos, daemon=True)
        thread.start()
    try:
        result = ('ok', func(beat))
    except Exception as e:
        result = ('exception', {
            'type': type(e).__name__, 'message': str(e)[:800],
            'where': repo_frames(e.__traceback__),
            'traceback': traceback.format_exc()[-3000:]})
    stop.set()
    if thread is not None:
        thread.join(1.0)
    with open(path + '.tmp', 'wb') as f:
        pickle.dump(result + (n_stops[0],), f)
    os.rename(path + '.tmp', path)
    # end everything the scenario started, including this process
    os.killpg(pgid, signal.SIGKILL)


def run_scenarios(scenarios, parallel=6, stall_s=25.0):
    """scenarios: list of (key, func, chaos_seed_or_None)

    Returns dict key -> (status, result, number of injected stops).
    """
    results = {}
    pending = list(scenarios)
    running = {}
    counter = 0
    base = tempfile.mkdtemp(dir=scratch())
    while pending or running:
        while pending and len(running) < parallel:
            key, func, chaos_seed = pending.pop(0)
            counter += 1
            path = os.path.join(base, 'r{}'.format(counter))
            pid = os.fork()
            if pid == 0:
                try:
                    _child(func, path, chaos_seed)
                finally:
                    os._exit(9)
            running[key] = [pid, path, -1, time.time(), 0]
        time.sleep(0.02)
        for key in list(running):
            pid, path, size, last, ticks = running[key]
            if os.path.exists(path):
                with open(path, 'rb') as f:
                    results[key] = pickle.load(f)
                _reap(pid)
                del running[key]
                continue
            done, status = os.waitpid(pid, os.WNOHANG)
            if done and not os.path.exists(path):
                results[key] = ('died', {'status': status}, 0)
                _killpg(pid)
                del running[key]
                continue
            try:
                new_size = os.path.getsize(path + '.beat')
            except OSError:
                new_size = 0
            if new_size != size:
                running[key][2:] = [new_size, time.time(), 0]
            else:
                running[key][4] = ticks + 1
                if (time.time() - last > stall_s
                        and ticks > stall_s / 0.02 / 4):
                    results[key] = ('stalled', {
                        'progress_events': new_size,
                        'observer_ticks_without_progress': ticks}, 0)
                    _killpg(pid)
                    _reap(pid)
                    del running[key]
    return results


def _killpg(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass


def _reap(pid):
    _killpg(pid)
    try:
        os.waitpid(pid, 0)
    except OSError:
        pass

"""System V semaphores left behind.

MIR makes one semaphore for each cache directory it locks, named after the directory, and never removes
it. The system has room for 32000 of them: a long series of checks would use them all, after which nothing
works any more. A helper process removes those made for processes that are gone.
"""

import ctypes
import os
import time

IPC_RMID, GETPID = 0, 11
libc = ctypes.CDLL(None, use_errno=True)


def alive(pid):
    try:
        os.kill(pid, 0)
    except ProcessLookupError:
        return False
    except PermissionError:
        pass
    return True


def clean(age):
    """Remove the semaphores not used for some time by a living process."""
    try:
        with open("/proc/sysvipc/sem") as f:
            lines = f.readlines()[1:]
    except OSError:
        return 0
    now, n, uid = time.time(), 0, os.getuid()
    if len(lines) > 16000:
        age = min(age, 20)
    for line in lines:
        v = line.split()
        # as MIR makes them: a key made of project 1 and a path, one semaphore, for everyone
        if int(v[0]) >> 24 & 0xFF != 1 or v[2] != "666" or v[3] != "1" or int(v[6]) != uid:
            continue
        if max(int(v[8]), int(v[9])) > now - age:
            continue
        pid = libc.semctl(int(v[1]), 0, GETPID)
        if pid < 0 or (pid > 0 and alive(pid)):
            continue
        if libc.semctl(int(v[1]), 0, IPC_RMID) == 0:
            n += 1
    return n


def watch():
    """Clean now, regularly, and when this process ends."""
    parent = os.getpid()
    if os.fork():
        return
    rc = 0
    try:
        os.setsid()  # outlives the check by a moment
        null = os.open(os.devnull, os.O_RDWR)
        for i in range(3):
            os.dup2(null, i)
        k = 0
        while os.getppid() == parent:
            if k % 15 == 0:
                clean(120)
            k += 1
            time.sleep(1)
        clean(10)
    except BaseException:
        rc = 1
    os._exit(rc)

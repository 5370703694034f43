"""
Python side of simvfs.c: builds and installs it, keeps the log of file
operations of a run, and makes crash images from that log.
"""

import ctypes
import hashlib
import os
import shutil
import subprocess

from kernel import Sim, this_task, SimKilled, SimStop

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(os.path.dirname(HERE), "build")

OPEN, WRITE, SYNC, TRUNC, DELETE, READ = 1, 2, 3, 4, 5, 6
NAMES = {1: "open", 2: "write", 3: "sync", 4: "truncate", 5: "delete", 6: "read"}

SQLITE_FULL = 13
SQLITE_CANTOPEN = 14
IOERR_READ = 10 | (1 << 8)
IOERR_WRITE = 10 | (3 << 8)
IOERR_FSYNC = 10 | (4 << 8)
IOERR_TRUNCATE = 10 | (6 << 8)
IOERR_DELETE = 10 | (10 << 8)
OPEN_CREATE = 0x4
SWALLOW, SHORT_FULL, SHORT_IO = -1, -2, -3

HOOK = ctypes.CFUNCTYPE(
    ctypes.c_int, ctypes.c_int, ctypes.c_char_p, ctypes.c_longlong,
    ctypes.c_void_p, ctypes.c_int, ctypes.c_int,
)
SLEEP = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_int)


def build():
    src = os.path.join(HERE, "simvfs.c")
    digest = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, f"simvfs-{digest}.so")
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = f"{out}.{os.getpid()}.tmp"
        subprocess.run(
            ["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, src, "-lsqlite3"], check=True
        )
        os.replace(tmp, out)
    return out


class Vfs:
    def __init__(self):
        self.lib = ctypes.CDLL(build())
        self.lib.simvfs_set_now.argtypes = [ctypes.c_longlong]
        self.lib.simvfs_seed.argtypes = [ctypes.c_ulonglong]
        self.lib.simvfs_libversion.restype = ctypes.c_char_p
        if self.lib.simvfs_install():
            raise RuntimeError("could not install simvfs")
        self._hook = HOOK(self.hook)
        self._sleep = SLEEP(self.sleep)
        self.lib.simvfs_set_hook(self._hook, self._sleep)
        self.oplog = None
        self.root = None
        self.count = 0

    # -- per thread modes
    def set_oracle(self, v):
        self.lib.simvfs_set_oracle(v)

    def set_dead(self, v):
        self.lib.simvfs_set_dead(v)

    def hook_reads(self, v):
        self.lib.simvfs_hook_reads(v)

    def reset(self, seed):
        self.lib.simvfs_seed(seed & 0xFFFFFFFF)
        self.lib.simvfs_set_now(210866803200000 + 1700000000000 - 1700000000000 % 1000)
        self.oplog = None
        self.count = 0

    # -- recording
    def start_log(self, root):
        """Record every change under root from now on; root's present content is durable."""
        self.root = root.rstrip("/") + "/"
        self.base = read_tree(root)
        self.oplog = []

    def stop_log(self):
        self.oplog = None

    def sleep(self, us):
        sim = Sim.active
        if sim is None or this_task() is None:
            return us
        try:
            sim.probes["sqlite busy wait"] += 1
            sim.sleep_us(us)
        except (SimKilled, SimStop):
            pass
        return us

    def hook(self, op, path, off, data, n, flags):
        sim = Sim.active
        if sim is None or this_task() is None:
            return 0
        name = os.fsdecode(path)
        created = False
        if op == OPEN:
            if not (flags & OPEN_CREATE) or os.path.exists(name):
                if not sim.faults:
                    return 0
            else:
                created = True
        if op == READ:
            if sim.faults:
                f = sim.hit("read", (op, name))
                if f is not None:
                    return IOERR_READ
            return 0
        self.count += 1
        if sim.faults:
            f = sim.hit("vfs", (op, name))
            if f is not None:
                rc = self._fail(sim, f, op, name, off, data, n)
                if rc is not None:
                    return rc
        if op == OPEN and not created:
            return 0
        if self.oplog is not None and name.startswith(self.root):
            rel = name[len(self.root):]
            if rel.endswith("-shm"):
                return 0
            buf = ctypes.string_at(data, n) if op == WRITE else None
            self.oplog.append((op, rel, off, buf, flags))
        return 0

    def _fail(self, sim, f, op, name, off, data, n):
        kind = f.kind
        if kind == "worker death" or kind == "task kill":
            f.action()
            self.set_dead(1)
            this_task().dead_set = True
            return 10 if op != OPEN else SQLITE_CANTOPEN
        if op == OPEN:
            return SQLITE_CANTOPEN
        if kind.startswith("short"):
            if op == WRITE:
                if self.oplog is not None and name.startswith(self.root) and n // 2:
                    self.oplog.append(
                        (WRITE, name[len(self.root):], off, ctypes.string_at(data, n // 2), 0)
                    )
                return SHORT_FULL if "full" in kind else SHORT_IO
        if kind.endswith("disk full"):
            return SQLITE_FULL if op == WRITE else None
        return {WRITE: IOERR_WRITE, SYNC: IOERR_FSYNC, TRUNC: IOERR_TRUNCATE, DELETE: IOERR_DELETE}[op]

    # -- images
    def image_kill(self, dest, upto):
        """What is on disk if the process is killed just before operation `upto`."""
        files = dict(self.base)
        files = {k: bytearray(v) for k, v in files.items()}
        for entry in self.oplog[:upto]:
            apply_op(files, entry)
        write_tree(dest, files)

    def image_power(self, dest, upto, pick):
        """
        What is on disk if the power fails just before operation `upto`.

        Content synchronised by then is there.  Of the changes made to a file
        since its last sync, `pick` decides for each whether it reached the
        disk: whole, not at all, or only some of its 512-byte sectors, in any
        order.  Directory changes are durable once any file is synchronised
        afterwards (journalling file systems commit them together); until then
        a new file may be missing and a deleted one may still be there.
        """
        durable = {k: bytearray(v) for k, v in self.base.items()}
        pending = {}  # rel -> list of ops since last sync
        for entry in self.oplog[:upto]:
            op, rel, off, buf, flags = entry
            if op == SYNC:
                for e in pending.pop(rel, ()):
                    apply_op(durable, e)
                durable.setdefault(rel, bytearray())
                # directory changes made before a sync are in the file system's journal with it
                for r in list(pending):
                    kinds = [e[0] for e in pending[r]]
                    if DELETE in kinds:
                        last = len(kinds) - 1 - kinds[::-1].index(DELETE)
                        del pending[r][:last + 1]
                        durable.pop(r, None)
                    if any(e[0] == OPEN for e in pending[r]):
                        durable.setdefault(r, bytearray())
            elif op == DELETE and flags:
                pending.pop(rel, None)
                durable.pop(rel, None)
            else:
                pending.setdefault(rel, []).append(entry)
        torn = dropped = kept = 0
        mode = pick(4)  # 0: all pending reached the disk .. 3: everything torn
        for rel in sorted(pending):
            for e in pending[rel]:
                op, _, off, buf, _ = e
                c = 0 if mode == 0 else (pick(2) if mode < 3 else pick(3))
                if op == DELETE and c:
                    dropped += 1
                    break  # the name still stands for the old file; what follows went to a new one
                if c == 0:
                    apply_op(durable, e)
                    kept += 1
                elif c == 1 or op != WRITE:
                    dropped += 1
                else:
                    torn += 1
                    for s in range(0, len(buf), 512):
                        if pick(2):
                            apply_op(durable, (WRITE, rel, off + s, buf[s:s + 512], 0))
        write_tree(dest, durable)
        return kept, dropped, torn


def apply_op(files, entry):
    op, rel, off, buf, flags = entry
    if op == OPEN:
        files.setdefault(rel, bytearray())
    elif op == WRITE:
        f = files.setdefault(rel, bytearray())
        if len(f) < off:
            f.extend(b"\0" * (off - len(f)))
        f[off:off + len(buf)] = buf
    elif op == TRUNC:
        f = files.setdefault(rel, bytearray())
        if len(f) > off:
            del f[off:]
        else:
            f.extend(b"\0" * (off - len(f)))
    elif op == DELETE:
        files.pop(rel, None)


def read_tree(root):
    out = {}
    for d, _, names in os.walk(root):
        for nm in names:
            if nm.endswith("-shm"):
                continue
            p = os.path.join(d, nm)
            with open(p, "rb") as f:
                out[os.path.relpath(p, root)] = f.read()
    return out


def write_tree(dest, files):
    if os.path.isdir(dest):
        shutil.rmtree(dest)
    os.makedirs(dest)
    for rel, data in files.items():
        p = os.path.join(dest, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)

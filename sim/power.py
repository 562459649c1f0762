"""what a power failure leaves on a disk

A Disk follows the filesystem calls of a job on a real tree and keeps what would survive:
file contents up to the last flush of that file, and directory changes up to the last flush
of any directory.  Of the rest an arbitrary part survives: directory changes persist in order
(a journal cut somewhere), unflushed contents may be there, cut, zeros or missing.
"""

import os
import shutil


class File:
    def __init__(self, data=b""):
        self.durable = data  # contents that survive for certain
        self.last = None  # contents when it was removed
        self.flushed = True


class Disk:
    def __init__(self, root):
        self.root = root
        self.base = self._scan()
        self.now = dict(self.base)  # relative path -> File, or None for a directory
        self.log = []  # directory changes since the start
        self.safe = 0  # how many of them are flushed
        self.prev = None
        self.touched = set()

    def _scan(self):
        out = {}
        for d, ds, fs in os.walk(self.root):
            for x in ds:
                out[os.path.relpath(os.path.join(d, x), self.root)] = None
            for x in fs:
                p = os.path.join(d, x)
                out[os.path.relpath(p, self.root)] = File(self._read(p))
        return out

    @staticmethod
    def _read(path):
        with open(path, "rb") as f:
            return f.read()

    def real(self, rel):
        return os.path.join(self.root, rel)

    def exists(self, rel):
        return os.path.lexists(self.real(rel))

    def before(self, op):
        """called with each call the job is about to make, and None at its end"""
        if self.prev is not None:
            self._done(self.prev)
        self.prev = op
        if op is None:
            return
        for p in (op.p1, op.p2):  # contents that the call may take away
            f = self.now.get(p)
            if f is not None and op.op in ("unlink", "rename", "openw", "ftruncate", "truncate") and os.path.isfile(self.real(p)):
                f.last = self._read(self.real(p))

    def _done(self, op):
        k, p = op.op, op.p1
        if k == "mkdir" and p not in self.now and self.exists(p):
            self._change(("mkdir", p))
        elif k == "openw" and self.exists(p):
            if p not in self.now:
                self._change(("create", p, File()))
            self.touched.add(p)
        elif k in ("unlink", "rmdir") and p in self.now and not self.exists(p):
            self._change(("remove", p))
        elif k == "rename" and p in self.now and not self.exists(p):
            self._change(("rename", p, op.p2))
        elif k in ("fsync", "sync") and not op.made:
            return
        elif k == "fsync" and self.exists(p):
            f = self.now.get(p)
            if f is not None:
                f.durable = self._read(self.real(p))
            else:
                self.safe = len(self.log)
        elif k == "sync":
            self.safe = len(self.log)
            for q, f in self.now.items():
                if f is not None:
                    f.durable = self._read(self.real(q))

    def _change(self, c):
        self.log.append(c)
        self._apply(self.now, c)

    @staticmethod
    def _apply(tree, c):
        if c[0] == "mkdir":
            tree[c[1]] = None
        elif c[0] == "create":
            tree[c[1]] = c[2]
        elif c[0] == "remove":
            tree.pop(c[1], None)
        else:
            a, b = c[1], c[2]
            for q in [q for q in tree if q == b or q.startswith(b + "/")]:
                del tree[q]
            for q in [q for q in tree if q == a or q.startswith(a + "/")]:
                tree[b + q[len(a) :]] = tree.pop(q)

    def fail(self, rng):
        """the power fails: replace the tree by one that may be left; says what was lost"""
        where = {id(f): q for q, f in self.now.items() if f is not None}
        keep = rng.choice([self.safe, len(self.log), rng.randint(self.safe, len(self.log))])
        tree = dict(self.base)
        for c in self.log[:keep]:
            self._apply(tree, c)
        out, lost = {}, []
        mode = rng.choice(["all", "none", "mixed", "mixed"])
        for q in sorted(tree):
            f = tree[q]
            if f is None:
                out[q] = None
                continue
            at = where.get(id(f))
            full = self._read(self.real(at)) if at is not None and os.path.isfile(self.real(at)) else (f.last or b"")
            if full == f.durable:
                out[q] = full
                continue
            how = rng.choice(["durable", "cut", "zeros", "empty", "full"]) if mode == "mixed" else {"all": "full", "none": "durable"}[mode]
            if how == "durable":
                out[q] = f.durable
            elif how == "cut":
                out[q] = full[: rng.randint(0, len(full))]
            elif how == "zeros":
                n = rng.randint(0, len(full))
                out[q] = full[:n] + b"\0" * (len(full) - n)
            elif how == "empty":
                out[q] = b""
            else:
                out[q] = full
            if how != "full":
                lost.append((os.path.basename(q), how))
        for x in os.listdir(self.root):
            p = self.real(x)
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
        for q in sorted(out):
            if out[q] is None:
                os.makedirs(self.real(q), exist_ok=True)
        for q, data in out.items():
            if data is not None:
                with open(self.real(q), "wb") as f:
                    f.write(data)
        return len(self.log) - keep, lost

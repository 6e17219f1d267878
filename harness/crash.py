"""Ending this process at one of the operations by which it changes files in a directory.

Mode "before": just before the operation; "empty": just after a file has been opened for writing
(and so emptied); "partial": when half of the file's content has reached it.
"""
import os
import sys

WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC


class Watch:
    def __init__(self, directory, at=None, mode="before"):
        self.dir, self.at, self.mode, self.count = os.path.realpath(directory), at, mode, 0
        self.names, self.last, self.on = [], None, True

    def inside(self, p):
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not isinstance(p, (str, os.PathLike)):
            return None
        p = os.path.abspath(os.fspath(p))
        return p if p == self.dir or p.startswith(self.dir + os.sep) else None

    def end(self):
        os._exit(9)

    def half(self):
        self.on = False
        n = os.path.getsize(self.last)
        os.truncate(self.last, n // 2)
        self.end()

    def hook(self, event, args):
        if not self.on:
            return
        path = None
        if event == "open":
            p, mode, flags = args
            if (isinstance(mode, str) and any(c in mode for c in "wax+")) or (isinstance(flags, int) and flags & WRITE):
                path = self.inside(p)
        elif event in ("os.rename", "os.remove", "os.mkdir", "os.rmdir", "os.truncate", "os.link", "os.symlink"):
            path = self.inside(args[0])
            if event in ("os.rename", "os.link"):
                path = path or self.inside(args[1])
        if path is None:
            return
        self.count += 1
        self.names.append(event + " " + os.path.relpath(path, self.dir))
        if self.at is None:
            return
        if self.last is not None:  # the next operation after the one to be torn
            self.half()
        if self.count == self.at:
            if self.mode == "before" or event != "open":
                self.end()
            if self.mode == "empty":
                self.on = False
                open(path, "w").close()
                self.end()
            self.last = path

    def start(self):
        sys.addaudithook(self.hook)

    def stop(self):
        """At the end of the step: the file to be torn may have been the last."""
        if self.last is not None and self.on:
            self.half()
        self.on = False

"""A small directory tree: a model of the file system symbolically, a real scratch
directory in native runs.

A tree is {name: content} with content bytes for a file, a dict for a directory and
("link", target) for a symbolic link; a target that starts with "@" is absolute, below
the root of the tree."""
import errno
import os
import stat
import tempfile

import anyio

MTIME = 1700000000
ROOT = "/r"


class StatResult:
    def __init__(self, kind, size, mtime):
        self.st_mode = {"file": stat.S_IFREG | 0o644, "dir": stat.S_IFDIR | 0o755, "link": stat.S_IFLNK | 0o777}[kind]
        self.st_size = size
        self.st_mtime = mtime
        self.st_ino = 1
        self.st_dev = 1
        self.st_nlink = 1


class Handle:
    def __init__(self, content):
        self.content, self.pos = content, 0

    async def __aenter__(self):
        return self

    async def __aexit__(self, *exc):
        pass

    async def aclose(self):
        pass

    async def seek(self, offset, whence=0):
        self.pos = offset + (0, self.pos, len(self.content))[whence]
        return self.pos

    async def read(self, n=-1):
        a = self.pos
        b = len(self.content) if n is None or n < 0 else min(a + n, len(self.content))
        self.pos = max(a, b)
        return self.content[a:b]


class Tree:
    def __init__(self, S, tree, mtimes=None):
        self.S, self.tree, self.mtimes = S, tree, mtimes or {}

    # ---- lookup in the model
    def walk(self, path, follow_last, depth=0, base=None):
        """The node at a path (text, possibly symbolic), or an OSError."""
        if depth > 8:
            raise OSError(errno.ELOOP, "Too many levels of symbolic links")
        if "\0" in path:
            raise ValueError("embedded null byte")
        if len(path) == 0:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory")
        if path.startswith("/"):
            base = []
        elif base is None:
            base = [ROOT[1:]]
        parts = path.split("/")
        for i, part in enumerate(parts):
            if len(part) > 255:
                raise OSError(errno.ENAMETOOLONG, "File name too long")
            node = self.node(base)
            if len(part) == 0 or part == ".":
                if i > 0 or len(part):
                    if not isinstance(node, dict):
                        raise NotADirectoryError(errno.ENOTDIR, "Not a directory")
                continue
            if not isinstance(node, dict):
                raise NotADirectoryError(errno.ENOTDIR, "Not a directory")
            if part == "..":
                base = base[:-1]
                continue
            for name in node:
                if name == part:
                    child = node[name]
                    break
            else:
                raise FileNotFoundError(errno.ENOENT, "No such file or directory")
            if isinstance(child, tuple) and (follow_last or i < len(parts) - 1):
                base = self.walk(child[1].replace("@", ROOT), True, depth + 1, base)[1]
            else:
                base = base + [name]
        return self.node(base), base

    def node(self, names):
        n = {ROOT[1:]: self.tree}
        for x in names:
            n = n[x]
        return n

    def stat(self, path, *a, dir_fd=None, follow_symlinks=True):
        node, names = self.walk(os.fspath(path), follow_symlinks)
        kind = "dir" if isinstance(node, dict) else "link" if isinstance(node, tuple) else "file"
        return StatResult(kind, len(node), self.mtimes.get("/".join(names[1:]), MTIME))

    def lstat(self, path, *a, dir_fd=None):
        return self.stat(path, follow_symlinks=False)

    def readlink(self, path, *a, dir_fd=None):
        node, names = self.walk(os.fspath(path), False)
        if not isinstance(node, tuple):
            raise OSError(errno.EINVAL, "Invalid argument")
        return node[1].replace("@", ROOT)

    async def open_file(self, path, mode="r", *a, **k):
        assert mode == "rb"
        node, names = self.walk(os.fspath(path), True)
        if not isinstance(node, bytes):
            raise IsADirectoryError(errno.EISDIR, "Is a directory")
        return Handle(node)

    # ---- the real thing
    def build(self, where, tree, names=()):
        for name, content in tree.items():
            p = os.path.join(where, name)
            if isinstance(content, dict):
                os.mkdir(p)
                self.build(p, content, names + (name,))
            elif isinstance(content, tuple):
                os.symlink(content[1].replace("@", self.root), p)
            else:
                with open(p, "wb") as f:
                    f.write(content)
                t = self.mtimes.get("/".join(names + (name,)), MTIME)
                os.utime(p, (t, t))

    def __enter__(self):
        if self.S.symbolic:
            self.root = ROOT
            self.saved = (os.stat, os.lstat, os.readlink, os.getcwd, anyio.open_file)
            os.stat, os.lstat, os.readlink, os.getcwd = self.stat, self.lstat, self.readlink, lambda: ROOT
            anyio.open_file = self.open_file
        else:
            self.tmp = tempfile.TemporaryDirectory()
            self.root = os.path.realpath(self.tmp.name)
            self.build(self.root, self.tree)
            self.cwd = os.getcwd()
            os.chdir(self.root)
        return self

    def __exit__(self, *exc):
        if self.S.symbolic:
            os.stat, os.lstat, os.readlink, os.getcwd, anyio.open_file = self.saved
        else:
            os.chdir(self.cwd)
            self.tmp.cleanup()

"""Bit helpers shared by drivers (data conversion only)."""
import io
import os
import tempfile


def to_bits(val, n):
    val &= (1 << n) - 1
    return [(val >> i) & 1 for i in range(n)]


def from_bits(bits):
    return sum(b << i for i, b in enumerate(bits))


class NonSeekable(io.RawIOBase):
    """A readable stream that offers neither seek nor tell."""

    def __init__(self, data):
        self._io = io.BytesIO(data)

    def readable(self):
        return True

    def read(self, n=-1):
        return self._io.read(n)

    def readinto(self, b):
        return self._io.readinto(b)

    def seekable(self):
        return False

    def seek(self, *_a):
        raise io.UnsupportedOperation("seek")

    def tell(self):
        raise io.UnsupportedOperation("tell")


class WriteOnly(io.BufferedIOBase):
    """A buffered writable stream that cannot seek (a pipe)."""

    def __init__(self):
        self.buf = bytearray()

    def writable(self):
        return True

    def write(self, b):
        self.buf += bytes(b)
        return len(b)

    def seek(self, *_a):
        raise io.UnsupportedOperation("seek")

    def tell(self):
        raise io.UnsupportedOperation("tell")


def byteslist(x):
    """Sanitise something that should be bytes."""
    if isinstance(x, (bytes, bytearray)):
        return list(x)
    return [-1]


def natural(x):
    """Sanitise something that should be a small int."""
    if isinstance(x, int) and not isinstance(x, bool) and -(2**31) < x < 2**31:
        return x
    return -999999


def scratch_file(content=b""):
    fd, path = tempfile.mkstemp(prefix="vf-")
    os.write(fd, content)
    os.close(fd)
    return path


class Far(io.BufferedIOBase):
    """A stream whose interesting part starts at byte `base` (of a file that
    would be too large to have)."""

    def __init__(self, data, base):
        self._io = io.BytesIO(data)
        self._base = base

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return True

    def read(self, n=-1):
        return self._io.read(n)

    def readinto(self, b):
        return self._io.readinto(b)

    def write(self, b):
        return self._io.write(b)

    def tell(self):
        return self._io.tell() + self._base

    def seek(self, offset, whence=0):
        if whence == 0:
            offset -= self._base
        return self._io.seek(offset, whence) + self._base

    def getvalue(self):
        return self._io.getvalue()


FAR = [1, 8191, 8192, 65535, 1 << 20, (1 << 28) - 1, 1 << 28, (1 << 29) - 3, 1 << 31, (1 << 32) + 5, 1 << 40]

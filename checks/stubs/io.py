"""Stand-in for io, read by the analyser, never executed: what was written into a buffer, by position."""
FILES = {}


class BytesIO:
    def __init__(self, initial_bytes=()):
        self.chunks = list(initial_bytes)
        self.position = 0
        self.closed = False

    def _open(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def write(self, chunk):
        self._open()
        self.chunks = self.chunks[: self.position] + [chunk] + self.chunks[self.position + 1 :]
        self.position += 1
        return 1

    def seek(self, offset, whence=0):
        self._open()
        if whence == 2:
            self.position = len(self.chunks)
        else:
            self.position = offset
        return self.position

    def tell(self):
        self._open()
        return self.position

    def read(self, size=-1):
        self._open()
        out = self.chunks[self.position :]
        self.position = len(self.chunks)
        return tuple(out)

    def truncate(self, size=None):
        self._open()
        if size is None:
            size = self.position
        self.chunks = self.chunks[:size]
        return size

    def getvalue(self):
        self._open()
        return tuple(self.chunks)

    def getbuffer(self):
        return self.getvalue()

    def flush(self):
        self._open()

    def close(self):
        self.closed = True

    def __enter__(self):
        self._open()
        return self

    def __exit__(self, *_):
        self.closed = True
        return False

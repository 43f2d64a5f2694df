"""Stand-in for PIL.Image, read by the analyser, never executed: an opened image reads its source when it is looked at"""
import io


class UnidentifiedImageError(OSError):
    pass


class Image:
    def __init__(self, source, picture=None):
        self.source = source
        self.picture = picture
        self.format = "PICTURE"

    def load(self):
        if self.picture is None:
            if self.source.closed:
                raise ValueError("seek of closed file")
            self.picture = self.source.chunks[0]
        return self.picture

    def copy(self):
        return Image(None, self.load())

    def convert(self, *_, **__):
        return Image(None, self.load())

    def verify(self):
        self.load()

    def close(self):
        if self.source is not None:
            self.source.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()


def open(fp, mode="r", formats=None):
    if isinstance(fp, str):
        fp = io.FILES[fp]
    if fp.closed:
        raise ValueError("I/O operation on closed file.")
    fp.seek(0)
    if len(fp.chunks) == 0:
        raise UnidentifiedImageError("cannot identify image file")
    return Image(fp)

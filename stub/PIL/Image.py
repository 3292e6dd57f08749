"""Stand-in for Pillow (not installed here): reads the harness' own trivial indexed image format, through ordinary
file I/O so that the simulated disk sees it:  b'IMG' mode(1 byte) width(2 le) height(2 le) pixels(1 byte each).
Like Pillow it identifies the file when it is opened, keeps a file that it opened itself open until the pixels are
loaded (or the image is closed), and reads them when they are asked for."""
import builtins


class UnidentifiedImageError(OSError):
    pass


class PixelAccess:
    def __init__(self, im):
        self.im = im

    def __getitem__(self, xy):
        x, y = xy
        w, h = self.im.size
        if x < 0:
            x += w
        if y < 0:
            y += h
        if not (0 <= x < w and 0 <= y < h):
            raise IndexError('image index out of range')
        return self.im._data[y * w + x]


class Image:
    format = 'IMG'
    info = {}

    def __init__(self, mode, size, data=None, fp=None, own=False):
        self.mode, self.size, self._data, self.fp, self._own = mode, size, data, fp, own

    width = property(lambda self: self.size[0])
    height = property(lambda self: self.size[1])

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def close(self):
        if self.fp is not None and self._own:
            self.fp.close()
        self.fp = None

    def load(self):
        if self._data is None:
            if self.fp is None:
                raise ValueError('Operation on closed image')
            data = self.fp.read()
            if len(data) < self.size[0] * self.size[1]:
                raise OSError('image file is truncated')
            self._data = data[:self.size[0] * self.size[1]]
            self.close()
        return PixelAccess(self)

    def getpixel(self, xy):
        return self.load()[tuple(xy)]

    def getdata(self, band=None):
        self.load()
        return list(self._data)

    get_flattened_data = getdata

    def tobytes(self, *args):
        self.load()
        return bytes(self._data)

    def copy(self):
        self.load()
        return Image(self.mode, self.size, self._data)

    def getextrema(self):
        self.load()
        return (min(self._data), max(self._data)) if self._data else (None, None)

    def getbands(self):
        return (self.mode,)

    def crop(self, box=None):
        self.load()
        if box is None:
            return self.copy()
        x0, y0, x1, y1 = map(int, box)
        px = PixelAccess(self)
        out = bytes(px[x, y] if 0 <= x < self.size[0] and 0 <= y < self.size[1] else 0 for y in range(y0, y1) for x in range(x0, x1))
        return Image(self.mode, (x1 - x0, y1 - y0), out)


def open(fp, mode='r', formats=None):
    own = not hasattr(fp, 'read')
    f = builtins.open(fp, 'rb') if own else fp
    try:
        head = f.read(8)
        if head[:3] != b'IMG' or len(head) < 8:
            raise UnidentifiedImageError('cannot identify image file')
    except BaseException:
        if own:
            f.close()
        raise
    return Image(chr(head[3]), (head[4] | head[5] << 8, head[6] | head[7] << 8), None, f, own)

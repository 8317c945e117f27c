"""Pictures as arrays in files: 'PIX <width> <height> <channels>\\n' and the pixels. resize notes what was asked for in the pixels."""
import numpy as np

NEAREST, LANCZOS, BILINEAR, BICUBIC = 0, 1, 2, 3
ANTIALIAS = LANCZOS


class Resampling(object):
    NEAREST, LANCZOS, BILINEAR, BICUBIC = 0, 1, 2, 3


class Image(object):
    def __init__(self, a, note=''):
        self.a, self.note = a, note

    @property
    def size(self):
        return (self.a.shape[1], self.a.shape[0])

    @property
    def mode(self):
        return 'RGB' if self.a.shape[2] == 3 else 'L'

    @property
    def width(self):
        return self.a.shape[1]

    @property
    def height(self):
        return self.a.shape[0]

    def copy(self):
        return Image(self.a.copy(), self.note)

    def load(self):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass

    def convert(self, mode=None):
        return self.copy()

    def crop(self, box=None):
        l, t, r, b = [int(round(v)) for v in box]
        if r < l or b < t:
            raise ValueError('Coordinates are not in order')
        out = np.zeros((b - t, r - l, self.a.shape[2]), np.uint8)
        y0, y1, x0, x1 = max(t, 0), min(b, self.height), max(l, 0), min(r, self.width)
        if y0 < y1 and x0 < x1:
            out[y0 - t:y1 - t, x0 - l:x1 - l] = self.a[y0:y1, x0:x1]
        return Image(out, self.note)

    def resize(self, size, resample=BICUBIC, box=None, reducing_gap=None):
        w, h = size
        l, t, r, b = box or (0, 0, self.width, self.height)
        ys = (t + (np.arange(h) + 0.5) * (b - t) / h).astype(int)
        xs = (l + (np.arange(w) + 0.5) * (r - l) / w).astype(int)
        return Image(self.a[ys][:, xs], self.note + ' resize %dx%d to %dx%d of %s with %d' % (self.width, self.height, w, h, box, resample))

    def save(self, path, format=None, **options):
        with _file(path, 'wb') as f:
            f.write(b'PIX %d %d %d %s\n' % (self.width, self.height, self.a.shape[2], self.note.encode()) + self.a.tobytes())


_file = open


def open(path, mode='r'):
    data = _file(path, 'rb').read()
    head, body = data.split(b'\n', 1)
    p = head.decode().split(' ', 4)
    if p[0] != 'PIX':
        raise OSError('cannot identify image file ' + str(path))
    return Image(np.frombuffer(body, np.uint8).reshape(int(p[2]), int(p[1]), int(p[3])), p[4] if len(p) > 4 else '')

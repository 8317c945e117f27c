"""File types by the first bytes, as libmagic names them."""


def from_file(path, mime=False):
    with open(path, 'rb') as f:
        b = f.read(16)
    if b[:4] == b'RIFF' and b[8:12] == b'WAVE':
        return 'audio/x-wav'
    if b[:3] == b'\xff\xd8\xff':
        return 'image/jpeg'
    if b[:2] in (b'P5', b'P2'):
        return 'image/x-portable-greymap'
    if b[:8] == b'\x89PNG\r\n\x1a\n':
        return 'image/png'
    return 'text/plain' if all(9 <= v < 127 for v in b) else 'application/octet-stream'


class Magic(object):
    def __init__(self, mime=False, **options):
        self.mime = mime

    def from_file(self, path):
        return from_file(path, self.mime)

"""Zip files, byte for byte a function of their description."""
import io
import zipfile


def build(d):
    """d: {"members": [[name, hex, method], ...], "comment": hex}"""
    o = io.BytesIO()
    with zipfile.ZipFile(o, 'w') as z:
        for name, data, method in d['members']:
            zi = zipfile.ZipInfo(name, (2000, 1, 1, 0, 0, 0))
            zi.compress_type = zipfile.ZIP_DEFLATED if method else zipfile.ZIP_STORED
            z.writestr(zi, bytes.fromhex(data))
        if d.get('comment'):
            z.comment = bytes.fromhex(d['comment'])
    return o.getvalue()


def intact(data):
    try:
        with zipfile.ZipFile(io.BytesIO(data)) as z:
            return z.testzip() is None
    except Exception:
        return False

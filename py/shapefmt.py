"""A shapefile written byte by byte (ESRI technical description), so that records of different types can share a file."""
import struct
NULL, POINT, LINE, POLY, MULTI, POLYZ, POLYM = 0, 1, 3, 5, 8, 15, 25


def box(pts):
    xs, ys = [p[0] for p in pts] or [0.0], [p[1] for p in pts] or [0.0]
    return struct.pack('<4d', min(xs), min(ys), max(xs), max(ys))


def content(kind, parts):
    pts = [p for part in parts for p in part]
    xy = b''.join(struct.pack('<2d', *p) for p in pts)
    if kind == NULL:
        return struct.pack('<i', 0)
    if kind == POINT:
        return struct.pack('<i', POINT) + xy
    if kind == MULTI:
        return struct.pack('<i', MULTI) + box(pts) + struct.pack('<i', len(pts)) + xy
    starts, n = [], 0
    for part in parts:
        starts.append(n)
        n += len(part)
    b = struct.pack('<i', kind) + box(pts) + struct.pack('<2i', len(parts), len(pts)) + b''.join(struct.pack('<i', s) for s in starts) + xy
    if kind in (POLYZ, POLYM):
        m = struct.pack('<2d', 0, 0) + struct.pack('<%dd' % len(pts), *[0.0] * len(pts))
        b += m * (2 if kind == POLYZ else 1)
    return b


def header(kind, length, pts):
    return struct.pack('>7i', 9994, 0, 0, 0, 0, 0, length // 2) + struct.pack('<2i', 1000, kind) + box(pts) + struct.pack('<4d', 0, 0, 0, 0)


def write(base, kind, records, extras=True):
    recs = [content(k, p) for k, p in records]
    pts = [q for k, p in records for part in p for q in part]
    body, index, at = b'', b'', 100
    for i, r in enumerate(recs):
        body += struct.pack('>2i', i + 1, len(r) // 2) + r
        index += struct.pack('>2i', at // 2, len(r) // 2)
        at += 8 + len(r)
    with open(base + '.shp', 'wb') as f:
        f.write(header(kind, 100 + len(body), pts) + body)
    if extras:
        with open(base + '.shx', 'wb') as f:
            f.write(header(kind, 100 + len(index), pts) + index)
        with open(base + '.dbf', 'wb') as f:  # one numeric attribute
            f.write(struct.pack('<4BIHH20x', 3, 120, 1, 1, len(recs), 32 + 32 + 1, 1 + 4))
            f.write(struct.pack('<11sc4xBB14x', b'ID', b'N', 4, 0) + b'\r')
            for i in range(len(recs)):
                f.write(b' ' + b'%4d' % i)
            f.write(b'\x1a')

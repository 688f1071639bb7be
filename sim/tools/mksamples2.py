#!/usr/bin/env python3
# Writes by hand the sample files that no library here can write.  usage: mksamples2.py OUTDIR
import struct, sys, os, zlib
OUT = sys.argv[1]
def put(name, *parts):
    open(os.path.join(OUT, name), 'wb').write(b''.join(p if isinstance(p, bytes) else bytes(p) for p in parts))
def L(fmt, *a): return struct.pack('<' + fmt, *a)
def B(fmt, *a): return struct.pack('>' + fmt, *a)
def px(x, y, c=0):                          # something with flat stretches, edges and noise
    if y % 3 == 1: return (40 * c + 17 * (x // 4)) & 255
    return (x * 37 + y * 91 + c * 53 + (x * y * 7) % 29) & 255
def rows(w, h, n): return [bytes(px(x, y, c) for x in range(w) for c in range(n)) for y in range(h)]
def img(w, h, n): return b''.join(rows(w, h, n))
def idx(w, h, n=16): return [[(x * 3 + y * 5 + (x * y) % 3) % n if y % 3 != 1 else (x // 4) % n for x in range(w)] for y in range(h)]
def pal(n, k=3, alpha=None): return b''.join(bytes([(i * 31) & 255, (i * 67 + 10) & 255, (255 - i * 13) & 255][:3]) + (bytes([alpha if alpha is not None else 0]) if k == 4 else b'') for i in range(n))
def packbits(b):
    o = bytearray(); i = 0
    while i < len(b):
        j = i
        while j + 1 < len(b) and b[j + 1] == b[i] and j - i < 126: j += 1
        if j > i + 1: o += bytes([257 - (j - i + 1), b[i]]); i = j + 1
        else:
            k = i
            while k + 1 < len(b) and k - i < 126 and not (k + 2 < len(b) and b[k] == b[k + 1] == b[k + 2]): k += 1
            o += bytes([k - i]) + b[i:k + 1]; i = k + 1
    return bytes(o)
def bits(row, n):                            # pack indices n bits each, msb first
    o = bytearray(); acc = cnt = 0
    for v in row:
        acc = acc << n | v; cnt += n
        if cnt == 8: o.append(acc); acc = cnt = 0
    if cnt: o.append(acc << (8 - cnt))
    return bytes(o)
def pad(b, k): return b + b'\0' * (-len(b) % k)

# ---- Targa ----
def tga(name, typ, w, h, bpp, body, cm=b'', cmlen=0, cmsize=0, desc=0, ident=b''):
    put(name, bytes([len(ident), 1 if cmlen else 0, typ]), L('HHB', 0, cmlen, cmsize), L('HHHHBB', 0, 0, w, h, bpp, desc), ident, cm, body)
def tgarle(pix, w, h, n):
    o = bytearray(); p = [pix[i:i + n] for i in range(0, len(pix), n)]; i = 0
    while i < len(p):
        j = i
        while j + 1 < len(p) and p[j + 1] == p[i] and j - i < 127: j += 1
        if j > i: o += bytes([128 | (j - i)]) + p[i]; i = j + 1
        else:
            k = i
            while k + 1 < len(p) and p[k + 1] != p[k] and k - i < 127: k += 1
            o += bytes([k - i]) + b''.join(p[i:k + 1]); i = k + 1
    return bytes(o)
tga('t16.tga', 2, 9, 6, 16, img(9, 6, 2))
tga('t16rle.tga', 10, 9, 6, 16, tgarle(img(9, 6, 2), 9, 6, 2))
tga('tpal16.tga', 1, 8, 5, 8, bytes(v for r in idx(8, 5) for v in r), img(16, 1, 2), 16, 16, 0x20, b'an id')
tga('tpal32.tga', 9, 8, 5, 8, tgarle(bytes(v for r in idx(8, 5) for v in r), 8, 5, 1), pal(16, 4, 200), 16, 32)
tga('tright.tga', 2, 7, 4, 24, img(7, 4, 3), desc=0x10 ^ 0x20 ^ 0x10)

# ---- BMP ----
def bmp(name, w, h, bpp, body, p=b'', comp=0, used=0, masks=b''):
    off = 54 + len(p) + len(masks)
    put(name, b'BM', L('iIi', off + len(body), 0, off), L('iiihhiiiiii', 40, w, h, 1, bpp, comp, len(body), 0, 0, used, 0), p, masks, body)
I8 = idx(11, 6)
bmp('b1.bmp', 11, 6, 1, b''.join(pad(bits([v & 1 for v in r], 1), 4) for r in I8), pal(2, 4), used=2)
bmp('b4.bmp', 11, 6, 4, b''.join(pad(bits(r, 4), 4) for r in I8), pal(16, 4), used=16)
bmp('b8few.bmp', 11, 6, 8, b''.join(pad(bytes(r), 4) for r in I8), pal(16, 4), used=16)
bmp('b16.bmp', 7, 5, 16, b''.join(pad(r, 4) for r in rows(7, 5, 2)))
bmp('b565.bmp', 7, 5, 16, b''.join(pad(r, 4) for r in rows(7, 5, 2)), comp=3, masks=L('III', 0xF800, 0x7E0, 0x1F))
bmp('b32.bmp', 7, 5, 32, img(7, 5, 4))
bmp('b32m.bmp', 7, 5, 32, img(7, 5, 4), comp=3, masks=L('III', 0xFF, 0xFF00, 0xFF0000))
bmp('btop.bmp', 7, -5, 24, b''.join(pad(r, 4) for r in rows(7, 5, 3)))
rle4 = bytearray()
for y in range(6):
    rle4 += bytes([5, 0x31, 0, 4]) + bits(I8[y][:4], 4) + bytes([2, 0x77]) + (b'\0\0' if y < 5 else b'\0\1')
bmp('rle4.bmp', 11, 6, 4, bytes(rle4), pal(16, 4), comp=2, used=16)
rle8 = bytearray()
for y in range(6):
    if y == 2: rle8 += bytes([0, 2, 3, 1])
    rle8 += bytes([5, y, 0, 3]) + bytes(I8[y][:3]) + b'\0' + (b'\0\0' if y < 5 else b'\0\1')
bmp('rle8d.bmp', 11, 7, 8, bytes(rle8), pal(256, 4), comp=1)
def os2(name, w, h, bpp, body, p=b''):
    put(name, b'BM', L('IhhIIHHHH', 26 + len(p) + len(body), 0, 0, 26 + len(p), 12, w, h, 1, bpp), p, body)
os2('os1.bmp', 11, 6, 1, b''.join(pad(bits([v & 1 for v in r], 1), 4) for r in I8), pal(2))
os2('os4.bmp', 11, 6, 4, b''.join(pad(bits(r, 4), 4) for r in I8), pal(16))
os2('os8.bmp', 11, 6, 8, b''.join(pad(bytes(r), 4) for r in I8), pal(256))
os2('os24.bmp', 8, 6, 24, img(8, 6, 3))

# ---- PNM ----
w, h = 6, 4
put('comment6.ppm', b'P6\n# made by hand\n%d %d\n255\n' % (w, h), img(w, h, 3))
put('comment5.pgm', b'P5 # c\n%d\n# d\n%d\n255\n' % (w, h), img(w, h, 1))
put('ascii3.ppm', b'P3\n# c\n%d %d\n255\n' % (w, h), b'\n'.join(b' '.join(b'%d' % v for v in r) + (b'\n# in between' if i == 1 else b'') for i, r in enumerate(rows(w, h, 3))), b'\n')
put('ascii2.pgm', b'P2\n%d %d\n65535\n' % (w, h), b'\n'.join(b'  '.join(b'%d' % (v * 257) for v in r) for r in rows(w, h, 1)), b'\n')
put('ascii1.pbm', b'P1\n# c\n%d %d\n' % (w, h), b'\n'.join(b' '.join(b'%d' % (v & 1) for v in r) for r in rows(w, h, 1)), b'\n')
put('bits4.pbm', b'P4\n11 6\n', b''.join(bits([v & 1 for v in r], 1) for r in I8))
put('bin16.ppm', b'P6\n%d %d\n65535\n' % (w, h), img(w, h, 6))
for d, t in ((1, b'GRAYSCALE'), (2, b'GRAYSCALE_ALPHA'), (3, b'RGB'), (4, b'RGB_ALPHA')):
    put('pam%d.pnm' % d, b'P7\nWIDTH %d\nHEIGHT %d\nDEPTH %d\nMAXVAL 255\nTUPLTYPE %s\nENDHDR\n' % (w, h, d, t), img(w, h, d))
put('pam16.pnm', b'P7\n# c\nWIDTH %d\nHEIGHT %d\nDEPTH 4\nMAXVAL 65535\nTUPLTYPE RGB_ALPHA\nENDHDR\n' % (w, h), img(w, h, 8))

# ---- PCX ----
def pcxrle(row):
    o = bytearray(); i = 0
    while i < len(row):
        j = i
        while j + 1 < len(row) and row[j + 1] == row[i] and j - i < 62: j += 1
        if j > i or row[i] >= 192: o += bytes([192 | (j - i + 1), row[i]])
        else: o.append(row[i])
        i = j + 1
    return bytes(o)
def pcxhead(bpp, w, h, planes, bps, cm=b'', ver=5): return bytes([10, ver, 1, bpp]) + L('HHHHHH', 0, 0, w - 1, h - 1, 72, 72) + cm.ljust(48, b'\0') + bytes([0, planes]) + L('HHHH', bps, 1, 0, 0) + b'\0' * 54
put('p4.pcx', pcxhead(1, 16, 6, 4, 2, pal(16)), b''.join(b''.join(pcxrle(bits([v >> c & 1 for v in r], 1)) for c in range(4)) for r in idx(16, 6)))
put('p1.pcx', pcxhead(1, 16, 6, 1, 2), b''.join(pcxrle(bits([v & 1 for v in r], 1)) + b'\0' for r in idx(16, 6)))
put('p24.pcx', pcxhead(8, 10, 5, 3, 10), b''.join(b''.join(pcxrle(r[c::3]) for c in range(3)) for r in rows(10, 5, 3)))
put('p32.pcx', pcxhead(8, 10, 5, 4, 10), b''.join(b''.join(pcxrle(r[c::4]) for c in range(4)) for r in rows(10, 5, 4)))
PCX8 = pcxhead(8, 10, 5, 1, 10) + b''.join(pcxrle(bytes(r)) for r in idx(10, 5)) + b'\x0c' + pal(256)
put('nopal.pcx', pcxhead(8, 10, 5, 1, 10), b''.join(pcxrle(bytes(r)) for r in idx(10, 5)))

# ---- PSD ----
def psd(name, mode, ch, w, h, depth, data, cmode=b'', res=b'', misc=b'', comp=0):
    put(name, b'8BPS', B('H6xHIIHH', 1, ch, h, w, depth, mode), B('I', len(cmode)), cmode, B('I', len(res)), res, B('I', len(misc)), misc, B('H', comp), data)
def planes(w, h, n): return [[bytes(px(x, y, c) for x in range(w)) for y in range(h)] for c in range(n)]
def rleplanes(pl):
    rr = [packbits(r) for p in pl for r in p]
    return b''.join(B('H', len(r)) for r in rr) + b''.join(rr)
def res8(i, d): return b'8BIM' + B('H', i) + b'\0\0' + B('I', len(d)) + pad(d, 2)
icc = bytes((i * 7 + i // 9) & 255 for i in range(201))
RES = res8(0x3ED, b'\0' * 16) + res8(0x40F, icc) + res8(0x404, b'xyz')
flat = lambda pl: b''.join(r for p in pl for r in p)
psd('rlergb.psd', 3, 3, 12, 5, 8, rleplanes(planes(12, 5, 3)), res=RES, comp=1)
psd('rlergba.psd', 3, 5, 12, 5, 8, rleplanes(planes(12, 5, 5)), comp=1, misc=b'\0' * 10)
psd('rlegrey.psd', 1, 1, 12, 5, 8, rleplanes(planes(12, 5, 1)), comp=1)
PALPL = pal(256); PP = bytes(PALPL[i * 3 + c] for c in range(3) for i in range(256))
psd('rleidx.psd', 2, 1, 12, 5, 8, rleplanes([[bytes(r) for r in idx(12, 5)]]), cmode=PP, res=RES, comp=1)
psd('cmyk.psd', 4, 4, 12, 5, 8, flat(planes(12, 5, 4)), res=RES)
psd('cmykarle.psd', 4, 5, 12, 5, 8, rleplanes(planes(12, 5, 5)), comp=1)
psd('cmyk16.psd', 4, 4, 12, 5, 16, flat(planes(24, 5, 4)))
psd('grey16.psd', 1, 1, 12, 5, 16, flat(planes(24, 5, 1)), res=RES)
psd('rgba16.psd', 3, 4, 12, 5, 16, flat(planes(24, 5, 4)))

# ---- DDS ----
def ddshead(w, h, pf, caps=0x1000, caps2=0, depth=0, mips=0, lin=0, flags=0x1007):
    if depth: flags |= 0x800000
    if mips: flags |= 0x20000
    flags |= 0x80000 if pf[4] & 4 else 8
    return b'DDS ' + L('IIIIIII', 124, flags, h, w, lin, depth, mips) + b'\0' * 44 + pf + L('IIIII', caps, caps2, 0, 0, 0)
def pfmask(flags, n, r, g, b, a): return L('II4sIIIII', 32, flags, b'\0\0\0\0', n, r, g, b, a)
def pffour(cc): return L('II4sIIIII', 32, 4, cc, 0, 0, 0, 0, 0)
w, h = 6, 5
M = {'argb': (0x41, 32, 0xFF0000, 0xFF00, 0xFF, 0xFF000000), 'abgr': (0x41, 32, 0xFF, 0xFF00, 0xFF0000, 0xFF000000), 'xrgb': (0x40, 32, 0xFF0000, 0xFF00, 0xFF, 0), 'rgb24': (0x40, 24, 0xFF0000, 0xFF00, 0xFF, 0),
     '565': (0x40, 16, 0xF800, 0x7E0, 0x1F, 0), '1555': (0x41, 16, 0x7C00, 0x3E0, 0x1F, 0x8000), '4444': (0x41, 16, 0xF00, 0xF0, 0xF, 0xF000), 'lum': (0x20000, 8, 0xFF, 0, 0, 0), 'lum16': (0x20000, 16, 0xFFFF, 0, 0, 0), 'la': (0x20001, 16, 0xFF, 0, 0, 0xFF00),
     'a2': (0x41, 32, 0x3FF00000, 0xFFC00, 0x3FF, 0xC0000000), 'a2b': (0x41, 32, 0x3FF, 0xFFC00, 0x3FF00000, 0xC0000000), 'rg32': (0x40, 32, 0xFFFF, 0xFFFF0000, 0, 0), '332': (0x40, 8, 0xE0, 0x1C, 3, 0)}
for n, m in M.items(): put('u_%s.dds' % n, ddshead(w, h, pfmask(*m), lin=w * m[1] // 8), img(w, h, m[1] // 8))
for n, cc, k in (('r16f', 111, 2), ('g16r16f', 112, 4), ('rgba16f', 113, 8), ('r32f', 114, 4), ('g32r32f', 115, 8), ('rgba32f', 116, 16), ('rgba16', 36, 8)):
    body = b''.join(struct.pack('<e' if '16f' in n else '<f' if '32f' in n else '<H', (px(i, 1, 2) / 16.0 if 'f' in n else px(i, 2) * 257)) for i in range(w * h * (k // (4 if '32f' in n else 2))))
    put('f_%s.dds' % n, ddshead(w, h, pffour(L('I', cc)), lin=w * h * k), body)
def chain(w, h, n):
    o = b''; 
    while True:
        o += img(w, h, n)
        if w == 1 and h == 1: return o
        w, h = max(1, w // 2), max(1, h // 2)
put('u_mip.dds', ddshead(8, 4, pfmask(*M['argb']), lin=32, caps=0x401008, mips=4), chain(8, 4, 4))
put('u_cube.dds', ddshead(4, 4, pfmask(*M['argb']), lin=16, caps=0x1008, caps2=0xFE00), b''.join(img(4, 4, 4) for i in range(6)))
put('u_vol.dds', ddshead(4, 4, pfmask(*M['argb']), lin=16, caps=0x1008, caps2=0x200000, depth=3), b''.join(img(4, 4, 4) for i in range(3)))
put('d1_cube.dds', ddshead(8, 8, pffour(b'DXT1'), lin=32, caps=0x401008, caps2=0xFE00, mips=4), b''.join(img(8 * k, 1, 1) for f in range(6) for k in (4, 1, 1, 1)))
put('d5_vol.dds', ddshead(8, 8, pffour(b'DXT5'), lin=64, caps=0x1008, caps2=0x200000, depth=2), img(64, 1, 1) * 2)
put('d2.dds', ddshead(8, 6, pffour(b'DXT2'), lin=64), img(64, 1, 1))
put('d4.dds', ddshead(8, 6, pffour(b'DXT4'), lin=64), img(64, 1, 1))

# ---- VTF ----
def vtf(name, w, h, fmt, body, frames=1, mips=1, flags=0, depth=1, low=b''):
    hd = b'VTF\0' + L('III', 7, 2, 80) + L('HHIHH', w, h, flags, frames, 0) + b'\0' * 4 + L('fff', .5, .5, .5) + b'\0' * 4 + L('fI', 1.0, fmt) + bytes([mips]) + L('I', 13 if low else 0xFFFFFFFF) + bytes([4, 4] if low else [0, 0]) + L('H', depth)
    put(name, pad(hd, 80)[:80], low, body)
VF = {'rgba': (0, 4), 'abgr': (1, 4), 'rgb': (2, 3), 'bgr': (3, 3), '565': (4, 2), 'i8': (5, 1), 'ia': (6, 2), 'a8': (8, 1), 'argb': (11, 4), 'bgra': (12, 4), 'bgrx': (16, 4), 'half': (24, 8), 'r16': (25, 8)}
for n, (f, k) in VF.items(): vtf('v_%s.vtf' % n, 4, 4, f, img(4, 4, k))
vtf('v_mips.vtf', 4, 4, 12, img(1, 1, 4) + img(2, 2, 4) + img(4, 4, 4), mips=3, low=img(8, 1, 1))
vtf('v_frames.vtf', 4, 4, 3, img(4, 4, 3) * 3, frames=3)
vtf('v_env.vtf', 4, 4, 12, img(4, 4, 4) * 7, flags=0x4000)
vtf('v_envdxt.vtf', 8, 8, 13, b''.join(img(8 * k, 1, 1) * 7 for k in (1, 1, 1, 4)), flags=0x4000, mips=4)
vtf('v_vol.vtf', 4, 4, 0, img(4, 4, 4) * 2, depth=2)
vtf('v_dxt3.vtf', 8, 8, 14, img(64, 1, 1))
# ---- GIF ----
def lzw(data, bits):
    clear, end = 1 << bits, (1 << bits) + 1
    out = bytearray(); acc = cnt = 0
    def emit(code, size):
        nonlocal acc, cnt
        acc |= code << cnt; cnt += size
        while cnt >= 8: out.append(acc & 255); acc >>= 8; cnt -= 8
    size = bits + 1; table = {bytes([i]): i for i in range(clear)}; nxt = end + 1
    emit(clear, size); cur = b''
    for v in data:
        c = cur + bytes([v])
        if c in table: cur = c; continue
        emit(table[cur], size)
        if nxt < 4096:
            table[c] = nxt; nxt += 1
            if nxt > (1 << size) and size < 12: size += 1
        else:
            emit(clear, size); size = bits + 1; table = {bytes([i]): i for i in range(clear)}; nxt = end + 1
        cur = bytes([v])
    emit(table[cur], size); emit(end, size)
    if cnt: out.append(acc & 255)
    return bytes([bits]) + b''.join(bytes([len(out[i:i + 255])]) + bytes(out[i:i + 255]) for i in range(0, len(out), 255)) + b'\0'
def gframe(x, y, w, h, n, bits, local=False, inter=False, seed=0, pp=None):
    g = idx(w + seed, h, n); g = [r[seed:seed + w] for r in g]
    if inter: g = [g[r] for s, st in ((0, 8), (4, 8), (2, 4), (1, 2)) for r in range(s, h, st)]
    return b',' + L('HHHHB', x, y, w, h, (0x80 | (bits - 1) if local else 0) | (0x40 if inter else 0)) + (pal(1 << bits) if local else b'') + lzw(bytes(v for r in g for v in r), bits)
def gctl(packed, delay=10, tr=0): return b'!\xf9\4' + bytes([packed]) + L('H', delay) + bytes([tr, 0])
def gif(name, w, h, bits, *parts, ver=b'89a', glob=True, bg=1): put(name, b'GIF' + ver, L('HHBBB', w, h, (0x80 | (bits - 1)) if glob else 0, bg, 0), pal(1 << bits) if glob else b'', *parts, b';')
gif('g87.gif', 13, 9, 4, gframe(0, 0, 13, 9, 16, 4), ver=b'87a')
gif('ginter.gif', 13, 11, 4, gframe(0, 0, 13, 11, 16, 4, inter=True))
gif('gtrans.gif', 10, 8, 3, gctl(1, 5, 2), gframe(0, 0, 10, 8, 8, 3))
gif('glocal.gif', 10, 8, 3, gframe(0, 0, 10, 8, 8, 3, local=True), glob=False)
gif('ganim.gif', 12, 10, 3, b'!\xff\x0bNETSCAPE2.0\3\1\0\0\0', b'!\xfe\5hello\0', gctl(4 | 1, 3, 1), gframe(0, 0, 12, 10, 8, 3), gctl(4, 7), gframe(2, 1, 6, 5, 8, 3, seed=1), gctl(8, 9), gframe(3, 2, 7, 8, 8, 3, inter=True, seed=2), gctl(12), gframe(1, 1, 4, 4, 8, 3, seed=3))
gif('ganimloc.gif', 9, 7, 3, gframe(0, 0, 9, 7, 8, 3), gctl(4), gframe(1, 1, 6, 5, 4, 2, local=True, seed=1), gctl(0, 1), gframe(0, 0, 9, 7, 8, 3, local=True))
gif('gbig.gif', 90, 60, 8, gframe(0, 0, 90, 60, 256, 8))

# ---- ICO ----
def icoimg(w, h, bpp, npal=0):
    row = {1: lambda r: bits([v & 1 for v in r], 1), 4: lambda r: bits(r, 4), 8: bytes}.get(bpp)
    rr = [row(r) for r in idx(w, h)] if row else rows(w, h, bpp // 8)
    msk = b''.join(pad(bits([(x + y) % 4 == 0 for x in range(w)], 1), 4) for y in range(h))
    return L('IiiHHIIiiII', 40, w, h * 2, 1, bpp, 0, 0, 0, 0, npal, 0) + pal({1: 2, 4: 16, 8: 256}.get(bpp, 0), 4) + b''.join(pad(r, 4) for r in rr) + msk
def chunk(t, d): return B('I', len(d)) + t + d + B('I', zlib.crc32(t + d))
def png(w, h, depth, ct, data, extra=b''): return b'\x89PNG\r\n\x1a\n' + chunk(b'IHDR', B('IIBBBBB', w, h, depth, ct, 0, 0, 0)) + extra + chunk(b'IDAT', zlib.compress(b''.join(b'\0' + r for r in data))) + chunk(b'IEND', b'')
def ico(name, items, typ=1):
    off = 6 + 16 * len(items); d = b''; body = b''
    for w, h, bpp, b in items: d += bytes([w, h, 0, 0]) + L('HHII', 1, bpp, len(b), off + len(body)); body += b
    put(name, L('HHH', 0, typ, len(items)), d, body)
ico('i32.ico', [(9, 7, 32, icoimg(9, 7, 32))])
ico('i24.ico', [(9, 7, 24, icoimg(9, 7, 24))])
ico('i8.cur', [(9, 7, 8, icoimg(9, 7, 8))], 2)
ico('i4.ico', [(10, 7, 4, icoimg(10, 7, 4))])
ico('i1.ico', [(17, 5, 1, icoimg(17, 5, 1))])
PLTE = chunk(b'PLTE', pal(16)); 
ico('imany.ico', [(4, 4, 8, icoimg(4, 4, 8)), (6, 4, 4, icoimg(6, 4, 4)), (5, 5, 32, icoimg(5, 5, 32)), (5, 4, 32, png(5, 4, 8, 6, rows(5, 4, 4)))])
ico('ipng.ico', [(7, 5, 32, png(7, 5, 8, 6, rows(7, 5, 4)))])
ico('ipngrgb.ico', [(7, 5, 24, png(7, 5, 8, 2, rows(7, 5, 3)))])
ico('ipngpal.ico', [(7, 5, 8, png(7, 5, 8, 3, [bytes(r) for r in idx(7, 5)], PLTE + chunk(b'tRNS', bytes(range(0, 160, 10)))))])

# ---- PNG: depths and colour types the library does not write ----
put('p1grey.png', png(13, 5, 1, 0, [bits([v & 1 for v in r], 1) for r in idx(13, 5)]))
put('p2grey.png', png(13, 5, 2, 0, [bits([v & 3 for v in r], 2) for r in idx(13, 5)]))
put('p4pal.png', png(13, 5, 4, 3, [bits(r, 4) for r in idx(13, 5)], PLTE))
put('ptrns.png', png(13, 5, 8, 3, [bytes(r) for r in idx(13, 5)], PLTE + chunk(b'tRNS', bytes(range(0, 160, 10)))))
put('prgbtrns.png', png(6, 5, 8, 2, rows(6, 5, 3), chunk(b'tRNS', B('HHH', 0, 53, 106))))
put('pla16.png', png(6, 5, 16, 4, rows(6, 5, 4)))
put('pgamma.png', png(6, 5, 8, 6, rows(6, 5, 4), chunk(b'gAMA', B('I', 45455)) + chunk(b'tEXt', b'Title\0a picture') + chunk(b'oFFs', B('iiB', 3, 4, 0))))

# ---- CUT ----
def cutrow(r):
    o = bytearray(); i = 0
    while i < len(r):
        j = i
        while j + 1 < len(r) and r[j + 1] == r[i] and j - i < 100: j += 1
        if j > i: o += bytes([128 | (j - i + 1), r[i]]); i = j + 1
        else: o += bytes([1, r[i]]); i += 1
    return bytes(o)
put('c.cut', L('HHI', 14, 8, 0), b''.join(cutrow(r) + (b'\0' + L('H', 5) if y < 7 else b'') for y, r in enumerate(rows(14, 8, 1))))

# ---- DCX ----
def dcx(name, *pages):
    off = 4 + 4 * (len(pages) + 1); tab = b''; body = b''
    for p in pages: tab += L('I', off + len(body)); body += p
    put(name, L('I', 987654321), tab, L('I', 0), body)
P24 = pcxhead(8, 10, 5, 3, 10) + b''.join(b''.join(pcxrle(r[c::3]) for c in range(3)) for r in rows(10, 5, 3))
P4 = pcxhead(1, 16, 6, 4, 2, pal(16)) + b''.join(b''.join(pcxrle(bits([v >> c & 1 for v in r], 1)) for c in range(4)) for r in idx(16, 6))
P32 = pcxhead(8, 10, 5, 4, 10) + b''.join(b''.join(pcxrle(r[c::4]) for c in range(4)) for r in rows(10, 5, 4))
dcx('one.dcx', PCX8); dcx('many.dcx', P24, PCX8, P4, P32); dcx('p4.dcx', P4)

# ---- Sun raster ----
def sunhead(w, h, d, typ, cm=b'', length=0): return B('IIIIIIII', 0x59A66A95, w, h, d, length, typ, 1 if cm else 0, len(cm)) + cm
def sunrle(b):
    o = bytearray(); i = 0
    while i < len(b):
        j = i
        while j + 1 < len(b) and b[j + 1] == b[i] and j - i < 200: j += 1
        if j > i + 1: o += bytes([0x80, j - i, b[i]])
        else: o += b''.join(b'\x80\0' if v == 0x80 else bytes([v]) for v in b[i:j + 1])
        i = j + 1
    return bytes(o)
put('s1.sun', sunhead(19, 5, 1, 1), b''.join(pad(bits([v & 1 for v in r], 1), 2) for r in idx(19, 5)))
put('s1map.sun', sunhead(16, 5, 1, 1, pal(2)), b''.join(bits([v & 1 for v in r], 1) for r in idx(16, 5)))
put('s8.sun', sunhead(9, 5, 8, 1), b''.join(pad(r, 2) for r in rows(9, 5, 1)))
put('s8map.sun', sunhead(9, 5, 8, 1, pal(256)), b''.join(pad(bytes(r), 2) for r in idx(9, 5)))
put('s8rle.sun', sunhead(10, 6, 8, 2), b''.join(sunrle(r) for r in rows(10, 6, 1)))
put('s24.sun', sunhead(7, 5, 24, 1), b''.join(pad(r, 2) for r in rows(7, 5, 3)))
put('s24rgb.sun', sunhead(8, 5, 24, 3), img(8, 5, 3))
put('s24rle.sun', sunhead(8, 5, 24, 2), b''.join(sunrle(r) for r in rows(8, 5, 3)))
put('s32.sun', sunhead(7, 5, 32, 1), img(7, 5, 4))

# ---- LIF, PIX, MDL, WAL, FTX ----
put('l.lif', b'Willy 7\0', L('IIIIIIIII', 260, 50, 12, 7, 1, 2, 0, 0, 0), img(12, 7, 1), pal(256, 4, 255))
def runs(data, n):
    p = [data[i:i + n] for i in range(0, len(data), n)]; o = bytearray(); i = 0
    while i < len(p):
        j = i
        while j + 1 < len(p) and p[j + 1] == p[i] and j - i < 200: j += 1
        o += bytes([j - i + 1]) + p[i]; i = j + 1
    return bytes(o)
put('x.pix', B('HHHHH', 11, 6, 0, 0, 24), runs(img(11, 6, 3), 3))
tx = ((8, 6), (4, 4), (5, 3)); mo = 192 + 80 * len(tx); mt = b''; mb = b''
for w, h in tx: mt += b'tex'.ljust(64, b'\0') + L('IIII', 0, w, h, mo + len(mb)); mb += img(w, h, 1) + pal(256)
put('m.mdl', L('II', 0x54534449, 10), b'\0' * 172, L('III', len(tx), 192, mo), mt, mb)
put('w.wal', b'wall'.ljust(32, b'\0'), L('II', 16, 8), L('IIII', 100, 100 + 128, 100 + 160, 100 + 168), b'\0' * 32, L('III', 0, 0, 0), img(16, 8, 1), img(8, 4, 1), img(4, 2, 1), img(2, 1, 1))
put('f.ftx', L('III', 7, 5, 1), img(7, 5, 4))

# ---- XPM ----
def xpm(name, w, h, n, cpp, cols, key='c'):
    sym = [('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdef'[i] + 'xyz'[:cpp - 1]) for i in range(n)]
    t = '/* XPM */\nstatic char *pic[] = {\n/* values */\n"%d %d %d %d",\n' % (w, h, n, cpp)
    t += ''.join('"%s\t%s %s",\n' % (sym[i], key, cols(i)) for i in range(n)) + '/* pixels */\n'
    t += ',\n'.join('"' + ''.join(sym[v] for v in r) + '"' for r in idx(w, h, n)) + '\n};\n'
    put(name, t.encode())
xpm('x1.xpm', 9, 6, 8, 1, lambda i: '#%02X%02X%02X' % (i * 30, 255 - i * 20, i * 7))
xpm('x2.xpm', 7, 5, 6, 2, lambda i: ['None', 'black', 'red', 'white', '#12ab9F', '#000000'][i])
xpm('x12.xpm', 5, 4, 4, 1, lambda i: '#%04X%04X%04X' % (i * 16000, 65535 - i * 999, i * 7000))

# ---- IFF (Maya) and ILBM ----
def mrle(b):
    o = bytearray(); i = 0
    while i < len(b):
        j = i
        while j + 1 < len(b) and b[j + 1] == b[i] and j - i < 120: j += 1
        if j > i: o += bytes([128 | (j - i), b[i]]); i = j + 1
        else: o += bytes([0, b[i]]); i += 1
    return bytes(o)
def ch4(t, d): return t + B('I', len(d)) + pad(d, 4)
def maya(name, w, h, ch, tiles, comp):
    body = b''
    for x1, y1, x2, y2 in tiles:
        tw, th = x2 - x1 + 1, y2 - y1 + 1; d = img(tw, th, ch)
        if comp: d = b''.join(mrle(img(tw, th, 1) if c else b'\x55' * (tw * th)) for c in range(ch))
        body += ch4(b'RGBA', B('HHHH', x1, y1, x2, y2) + d)
    tb = ch4(b'TBHD', B('IIHHIHHI', w, h, 1, 1, 3 if ch == 4 else 1, 0, len(tiles), comp))
    put(name, b'FOR4', B('I', 4 + len(tb) + 12 + len(body)), b'CIMG', ch4(b'VERS', b'1.0\0'), tb, b'FOR4', B('I', 4 + len(body)), b'TBMP', body)
maya('m4.iff', 16, 8, 4, [(0, 0, 7, 7), (8, 0, 15, 7)], 1)
maya('m4raw.iff', 10, 6, 4, [(0, 0, 9, 5)], 0)
maya('m3raw.iff', 10, 6, 3, [(0, 0, 9, 2), (0, 3, 9, 5)], 0)
def ilbm(name, w, h, planes, kind, comp, body, cm=b'', camg=None, mask=0):
    d = kind + b'BMHD' + B('IHHhhBBBBHBBhh', 20, w, h, 0, 0, planes, mask, comp, 0, 0, 1, 1, w, h)
    if cm: d += b'CMAP' + B('I', len(cm)) + pad(cm, 2)
    if camg is not None: d += b'CAMG' + B('II', 4, camg)
    d += b'ANNO' + B('I', 3) + b'abc\0' + b'BODY' + B('I', len(body)) + pad(body, 2)
    put(name, b'FORM', B('I', len(d)), d)
def plan(w, h, n, comp, src=None):
    o = b''
    for r in (src or idx(w, h, 1 << min(n, 8))):
        for p in range(n):
            b = pad(bits([v >> p & 1 for v in r], 1), 2); o += packbits(b) if comp else b
    return o
ilbm('a4.ilbm', 19, 6, 4, b'ILBM', 1, plan(19, 6, 4, 1), pal(16))
ilbm('a4raw.lbm', 16, 6, 4, b'ILBM', 0, plan(16, 6, 4, 0), pal(16))
ilbm('agrey.lbm', 16, 6, 4, b'ILBM', 1, plan(16, 6, 4, 1))
ilbm('a24.lbm', 16, 5, 24, b'ILBM', 1, plan(16, 5, 24, 1, [[px(x, y) | px(x, y, 1) << 8 | px(x, y, 2) << 16 for x in range(16)] for y in range(5)]))
ilbm('ahb.lbm', 16, 5, 6, b'ILBM', 1, plan(16, 5, 6, 1), pal(32), 0x80)
ilbm('aham.lbm', 16, 5, 6, b'ILBM', 1, plan(16, 5, 6, 1), pal(16), 0x800)
ilbm('apbm.lbm', 16, 5, 8, b'PBM ', 1, b''.join(packbits(bytes(r)) for r in idx(16, 5, 256)), pal(256))
ilbm('amask.lbm', 16, 5, 3, b'ILBM', 1, plan(16, 5, 4, 1), pal(8), mask=1)

# ---- PIC (Softimage) ----
def pichead(w, h): return B('If', 0x5380F634, 1.0) + b'made by hand'.ljust(80, b'\0') + b'PICT' + B('HHfHH', w, h, 1.0, 3, 0)
def picmixed(r, n):
    p = [r[i:i + n] for i in range(0, len(r), n)]; o = bytearray(); i = 0
    while i < len(p):
        j = i
        while j + 1 < len(p) and p[j + 1] == p[i] and j - i < 100: j += 1
        if j > i: o += bytes([127 + (j - i + 1)]) + p[i]; i = j + 1
        else: o += bytes([0]) + p[i]; i += 1
    return bytes(o)
put('c3.pic', pichead(9, 5), bytes([0, 8, 0, 0xE0]), img(9, 5, 3))
put('c4.pic', pichead(9, 5), bytes([1, 8, 2, 0xE0, 0, 8, 2, 0x10]), b''.join(picmixed(r, 3) + picmixed(a, 1) for r, a in zip(rows(9, 5, 3), rows(9, 5, 1))))
put('cp.pic', pichead(9, 5), bytes([0, 8, 1, 0xE0]), b''.join(runs(r, 3) for r in rows(9, 5, 3)))

# ---- Doom ----
def doompic(w, h):
    cols = []
    for x in range(w):
        c = b''; y = x % 3
        while y < h:
            n = min(3, h - y); c += bytes([y, n, 0]) + bytes(px(x, y + k) for k in range(n)) + b'\0'; y += n + 1
        cols.append(c + b'\xff')
    off = 8 + 4 * w; t = b''; b = b''
    for c in cols: t += L('I', off + len(b)); b += c
    return L('HHhh', w, h, 3, 4) + t + b
put('d.doom', doompic(9, 8)); put('d.flat', img(64, 64, 1))

# ---- FITS ----
def fits(name, bp, dims, body):
    cards = ['SIMPLE  =                    T', 'BITPIX  = %20d' % bp, 'NAXIS   = %20d' % len(dims)] + ['NAXIS%d  = %20d' % (i + 1, d) for i, d in enumerate(dims)] + ["OBJECT  = 'nothing'", 'END ']
    put(name, ''.join(c.ljust(80) for c in cards).encode().ljust(2880), body)
fits('n8.fits', 8, (9, 5), img(9, 5, 1)); fits('n16.fits', 16, (6, 5), img(6, 5, 2)); fits('n32.fits', 32, (6, 5), img(6, 5, 4))
fits('nf.fits', -32, (6, 5), b''.join(B('f', px(i, 1) / 7.0 - 3) for i in range(30))); fits('nd.fits', -64, (3, 4, 2), b''.join(B('d', px(i, 1) / 7.0) for i in range(24)))
# ---- ICNS ----
def icnsrle(ch):
    o = bytearray(); i = 0
    while i < len(ch):
        j = i
        while j + 1 < len(ch) and ch[j + 1] == ch[i] and j - i < 126: j += 1
        n = j - i + 1
        if n >= 3: o += bytes([n + 125, ch[i]]); i = j + 1
        else:
            k = i
            while k < len(ch) and k - i < 127 and not (k + 2 < len(ch) and ch[k] == ch[k + 1] == ch[k + 2]): k += 1
            o += bytes([k - i - 1]) + ch[i:k]; i = k
    return bytes(o)
def icnsent(t, d): return t + B('I', len(d) + 8) + d
def icnsrgb(w, seed=0): return b''.join(icnsrle(bytes(px(x + seed, y, c) for y in range(w) for x in range(w))) for c in range(3))
def icns(name, *e): b = b''.join(e); put(name, b'icns', B('I', len(b) + 8), b)
msk = lambda w: bytes(px(x, y, 3) for y in range(w) for x in range(w))
icns('small.icns', icnsent(b'is32', icnsrgb(16)))
icns('masked.icns', icnsent(b'is32', icnsrgb(16)), icnsent(b's8mk', msk(16)))
icns('two.icns', icnsent(b'ICN#', bytes(256)), icnsent(b'is32', b''.join(b'\0' + r[i:i + 3] for r in rows(16, 16, 3) for i in range(0, 48, 3))), icnsent(b's8mk', msk(16)), icnsent(b'il32', icnsrgb(32, 3)), icnsent(b'l8mk', msk(32)))
icns('maskfirst.icns', icnsent(b'h8mk', msk(48)), icnsent(b'ih32', icnsrgb(48)))
# ---- IWI ----
def iwi(name, fmt, w, h, data, flags=3): put(name, b'IWi\x06', L('BBHH', fmt, flags, w, h), bytes(18), data)
def dxt(w, h, n, s=0): return b''.join(bytes((px(i + s, b, 1) for i in range(n))) for b in range(((w + 3) // 4) * ((h + 3) // 4)))
iwi('i_argb8.iwi', 1, 7, 5, img(7, 5, 4))
iwi('i_rgb8.iwi', 2, 7, 5, img(7, 5, 3))
iwi('i_argb4.iwi', 3, 7, 5, img(7, 5, 2))
iwi('i_a8.iwi', 4, 7, 5, img(7, 5, 1))
iwi('i_dxt1.iwi', 0x0b, 8, 16, dxt(8, 16, 8))
iwi('i_dxt3.iwi', 0x0c, 8, 4, dxt(8, 4, 16))
iwi('i_dxt5.iwi', 0x0d, 4, 8, dxt(4, 8, 16))
iwi('i_mips.iwi', 1, 8, 8, img(1, 1, 4) + img(2, 2, 4) + img(4, 4, 4) + img(8, 8, 4), 0)
iwi('i_mipdxt.iwi', 0x0d, 8, 8, dxt(1, 1, 16) + dxt(2, 2, 16, 1) + dxt(4, 4, 16, 2) + dxt(8, 8, 16, 3), 0)
# ---- KTX ----
def kv(k, v): d = k + b'\0' + v + b'\0'; return L('I', len(d)) + pad(d, 4)
def ktx(name, glfmt, glint, w, h, kvd, data, mips=1): put(name, b'\xabKTX 11\xbb\r\n\x1a\n', L('13I', 0x04030201, 0x1401 if glfmt else 0, 1, glfmt, glint, glfmt, w, h, 0, 0, 1, mips, len(kvd)), kvd, data)
def ktximg(w, h, n): d = b''.join(pad(r, 4) for r in rows(w, h, n)); return L('I', len(d)) + d
ktx('k_lum.ktx', 0x1909, 0x1909, 7, 5, b'', ktximg(7, 5, 1))
ktx('k_la.ktx', 0x190a, 0x190a, 6, 5, b'', ktximg(6, 5, 2))
ktx('k_rgb.ktx', 0x1907, 0x1907, 7, 5, kv(b'KTXorientation', b'S=r,T=u'), ktximg(7, 5, 3))
ktx('k_rgba.ktx', 0x1908, 0x1908, 7, 5, kv(b'KTXorientation', b'S=r,T=d') + kv(b'Author', b'me'), ktximg(7, 5, 4))
ktx('k_mips.ktx', 0x1908, 0x1908, 8, 4, b'', ktximg(8, 4, 4) + ktximg(4, 2, 4) + ktximg(2, 1, 4) + ktximg(1, 1, 4), 4)
ktx('k_etc1.ktx', 0, 0x8d64, 9, 6, b'', L('I', 48) + dxt(9, 6, 8))
# ---- MP3 ----
def synch(n): return bytes([n >> 21 & 127, n >> 14 & 127, n >> 7 & 127, n & 127])
def mp3(name, mime, data):
    fr = lambda t, d: t + B('IH', len(d), 0) + d
    b = fr(b'TIT2', b'\0a title') + fr(b'APIC', b'\0' + mime + b'\0\3cover\0' + data)
    put(name, b'ID3\3\0\0', synch(len(b) + 10), b)
mp3('cover.mp3', b'image/png', png(7, 5, 8, 2, rows(7, 5, 3)))
mp3('coverjpg.mp3', b'image/jpeg', open(os.path.join(OUT, 'rgb.jpg'), 'rb').read())
# ---- PXR ----
def pxr(name, bpp, w, h, data): put(name, b'\x80\xe8', bytes(414), L('HH', h, w), bytes(4), bytes([bpp]), bytes(599), data)
pxr('x8.pxr', 8, 7, 5, img(7, 5, 1)); pxr('x24.pxr', 14, 7, 5, img(7, 5, 3)); pxr('x32.pxr', 15, 7, 5, img(7, 5, 4))
# ---- ROT ----
def rot(name, fmt, w, h, data): put(name, b'FORM', B('I', 20), b'HEAD', L('IIII', w, h, fmt, 4), b'FORM', B('I', len(data) + 28), b'MIPS', b'FORM', B('I', len(data) + 20), b'MLVL', L('IIII', 0, w, h, len(data)), data)
rot('r32.rot', 1024, 7, 5, img(7, 5, 4)); rot('r1.rot', 1028, 8, 8, dxt(8, 8, 8)); rot('r3.rot', 1029, 8, 8, dxt(8, 8, 16)); rot('r5.rot', 1030, 8, 4, dxt(8, 4, 16))
# ---- TPL ----
def tpl(name, *tex):                        # (w, h, fmt, data, palette entries, palette format, palette data)
    head = B('III', 0x20af30, len(tex), 12); off = 12 + 8 * len(tex); tab = b''; body = b''
    for w, h, f, d, *p in tex:
        t = off + len(body); hdr = B('HHIIIIIIfBBBB', h, w, f, t + 36, 0, 0, 0, 0, 0.0, 0, 0, 0, 0)
        body += hdr + d
        if p: po = off + len(body); body += B('HBBII', p[0], 0, 0, p[1], po + 12) + p[2]
        else: po = 0
        if p: body = body[:t - off] + hdr + d + body[t - off + 36 + len(d):]
        tab += B('II', t, po)
    put(name, head, tab, body)
up = lambda v, n: (v + n - 1) // n * n
def blk(w, h, bw, bh, bits): return img(up(w, bw), up(h, bh), 2)[:up(w, bw) * up(h, bh) * bits // 8] if bits <= 16 else img(up(w, bw), up(h, bh), 4)
tpl('t_i4.tpl', (11, 9, 0, blk(11, 9, 8, 8, 4))); tpl('t_i8.tpl', (11, 9, 1, blk(11, 9, 8, 4, 8)))
tpl('t_ia4.tpl', (11, 9, 2, blk(11, 9, 8, 4, 8))); tpl('t_ia8.tpl', (7, 5, 3, blk(7, 5, 4, 4, 16)))
tpl('t_565.tpl', (7, 5, 4, blk(7, 5, 4, 4, 16))); tpl('t_5a3.tpl', (7, 5, 5, blk(7, 5, 4, 4, 16)))
tpl('t_rgba8.tpl', (8, 8, 6, blk(8, 8, 4, 4, 32))); tpl('t_cmp.tpl', (16, 8, 14, dxt(16, 8, 8)))
tpl('t_ci4.tpl', (8, 8, 8, blk(8, 8, 8, 8, 4), 16, 1, img(16, 1, 2))); tpl('t_ci8.tpl', (8, 4, 9, blk(8, 4, 8, 4, 8), 256, 0, img(256, 1, 2)))
tpl('t_ci14.tpl', (4, 4, 10, b''.join(B('H', (i * 7) % 20) for i in range(16)), 20, 2, img(20, 1, 2)))
tpl('t_many.tpl', (8, 4, 1, blk(8, 4, 8, 4, 8)), (4, 4, 4, blk(4, 4, 4, 4, 16)), (8, 8, 5, blk(8, 8, 4, 4, 16)))
# ---- SCITEX ----
def sct(name, model, n, w, h): put(name, b'a comment'.ljust(80, b'\0'), b'CT', bytes(942), bytes([0, n]), B('H', model), b'+1.0000000E+01', b'+2.0000000E+01', b'%012d' % h, b'%012d' % w, bytes(2048 - 80 - 2 - 942 - 4 - 28 - 24), b''.join(pad(bytes(px(x, y, c) for x in range(w)), 2) for y in range(h) for c in range(n)))
sct('s_rgb.sct', 7, 3, 8, 5); sct('s_odd.sct', 7, 3, 7, 5); sct('s_grey.sct', 8, 1, 8, 5)
# ---- DPX ----
def dpx(name, desc, bits_, packing, w, h, data):
    el = B('IIIII', 0, 0, 0, 1023, 0) + bytes([desc, 2, 2, bits_]) + B('HHIII', packing, 0, 2048, 0, 0) + bytes(32)
    d = b'SDPX' + B('I', 2048) + b'V1.0\0\0\0\0' + B('IIIII', 2048 + len(data), 0, 1664, 384, 0) + bytes(100 + 24 + 100 + 200 + 200) + B('I', 0xffffffff) + bytes(104)
    d += B('HHII', 0, 1, w, h) + el + bytes(72) * 7 + bytes(52)
    put(name, d, bytes(2048 - len(d)), data)
dpx('d8.dpx', 50, 8, 0, 7, 5, img(7, 5, 3)); dpx('d8a.dpx', 51, 8, 0, 7, 5, img(7, 5, 4)); dpx('d8l.dpx', 6, 8, 0, 7, 5, img(7, 5, 1))
dpx('d10.dpx', 50, 10, 1, 7, 5, img(7, 5, 4)); dpx('d10l.dpx', 6, 10, 1, 7, 5, img(7, 5, 2)); dpx('d10a.dpx', 51, 10, 1, 7, 5, img(7, 5, 8))
# ---- BLP ----
def mips16(lens, start): 
    o = []; p = start
    for n in lens: o.append(p); p += n
    return L('16I', *(o + [0] * (16 - len(o)))) + L('16I', *(lens + [0] * (16 - len(lens))))
def blp2(name, comp, abits, atype, w, h, levels): put(name, b'BLP2', L('IBBBBII', 1, comp, abits, atype, 1 if len(levels) > 1 else 0, w, h), mips16([len(l) for l in levels], 148 + (1024 if comp == 1 else 0)), pal(256, 4) if comp == 1 else b'', *levels)
i8 = lambda w, h: img(w, h, 1)
blp2('b_pal.blp', 1, 0, 0, 8, 4, [i8(8, 4), i8(4, 2), i8(2, 1), i8(1, 1)])
blp2('b_a1.blp', 1, 1, 0, 8, 4, [i8(8, 4) + i8(4, 1), i8(4, 2) + i8(1, 1), i8(2, 1) + i8(1, 1), i8(1, 1) + i8(1, 1)])
blp2('b_dxt1.blp', 2, 0, 0, 8, 8, [dxt(8, 8, 8), dxt(4, 4, 8), dxt(2, 2, 8, 2), dxt(1, 1, 8, 3)])
blp2('b_dxt3.blp', 2, 8, 1, 8, 8, [dxt(8, 8, 16)]); blp2('b_dxt5.blp', 2, 8, 7, 8, 4, [dxt(8, 4, 16), dxt(4, 2, 16)])
def blp1(name, comp, ptype, w, h, pre, levels): put(name, b'BLP1', L('IIIIII', comp, 0, w, h, ptype, 0), mips16([len(l) for l in levels], 28 + 128 + len(pre)), pre, *levels)
blp1('b1_pal.blp', 1, 5, 8, 4, pal(256, 4), [i8(8, 4), i8(4, 2), i8(2, 1), i8(1, 1)])
blp1('b1_a.blp', 1, 3, 7, 5, pal(256, 4), [i8(7, 5) + i8(7, 5)])
j = open(os.path.join(OUT, 'rgb.jpg'), 'rb').read(); blp1('b1_jpg.blp', 0, 5, 8, 8, L('I', 100) + j[:100], [j[100:]])
# ---- PSP ----
def psp(name, w, h, chans, comp, palette=b'', ver=4):
    def blkh(t, body, init=None):
        return b'~BK\0' + L('HI', t, len(body)) if ver >= 4 else b'~BK\0' + L('HII', t, 0, len(body))
    att = L('iidBHHHIBIiHI', w, h, 72.0, 1, comp, 24 if len(chans) > 1 else 8, 1, 1 << 24, 0, w * h * len(chans), 0, 1, 1)
    a = L('I', len(att) + 4) + att
    out = b'Paint Shop Pro Image File\n\x1a'.ljust(32, b'\0') + L('HH', ver, 0) + b'~BK\0' + L('HI', 0, len(a)) + a
    def block(t, body): return b'~BK\0' + L('HI', t, len(body)) + body
    if palette: p = L('II', 8, len(palette) // 4) + palette; out += block(2, p)
    ch = b''
    for i, c in enumerate(chans):
        d = pspr(c) if comp == 1 else c
        body = L('I', 16) + L('IIHH', len(d), len(c), 0, i + 1 if len(chans) > 1 else 0) + d
        ch += block(5, body)
    info = bytes(1) + L('4I', 0, 0, w, h) * 2 + bytes([255, 0, 1, 0, 0]) + L('4I', 0, 0, 0, 0) * 2 + bytes([0, 0, 0]) + L('H', 0) + bytes(40)
    lay = L('IH', 4 + 2 + 5 + len(info), 5) + b'layer' + info + L('I', 8) + L('HH', 1, len(chans)) + ch
    out += block(3, block(4, lay)); put(name, out)
def pspr(c):
    o = bytearray(); i = 0
    while i < len(c):
        k = i
        while k + 1 < len(c) and c[k + 1] == c[i] and k - i < 120: k += 1
        n = k - i + 1
        if n > 1: o += bytes([128 + n, c[i]])
        else: o += bytes([1, c[i]])
        i = k + 1
    return bytes(o)
plane = lambda c: bytes(px(x, y, c) for y in range(5) for x in range(7))
psp('p_rgb.psp', 7, 5, [plane(0), plane(1), plane(2)], 0); psp('p_rle.psp', 7, 5, [plane(0), plane(1), plane(2)], 1)
psp('p_rgba.psp', 7, 5, [plane(0), plane(1), plane(2), plane(3)], 1); psp('p_pal.psp', 7, 5, [plane(0)], 0, pal(256, 4)); psp('p_grey.psp', 7, 5, [plane(0)], 1)
# ---- UTX ----
def cint(v):
    s = 0x80 if v < 0 else 0; v = abs(v)
    if v < 64: return bytes([s | v])
    o = [s | 0x40 | v & 63]; v >>= 6
    while v > 127: o.append(0x80 | v & 127); v >>= 7
    return bytes(o + [v])
def utx(name, texs, withpal=True):
    names = [b'None', b'Palette', b'Texture', b'Format', b'USize', b'VSize', b'Engine', b'obj']
    nt = b''.join(bytes([len(n) + 1]) + n + b'\0' + L('I', 0) for n in names)
    imp = b''.join(cint(6) + cint(6) + L('i', 0) + cint(c) for c in (1, 2))
    objs = [b'\2' + cint(256) + pal(256, 4, 255)] if withpal else []
    cls = [-1] if withpal else []
    for w, h, f, d in texs:
        o = b''
        if f == 0: o += cint(1) + bytes([0x05]) + cint(1)
        else: o += cint(3) + bytes([0x01, f])
        o += cint(4) + bytes([0x22]) + L('I', w) + cint(5) + bytes([0x22]) + L('I', h) + cint(0) + bytes([1]) + L('I', 0) + cint(len(d)) + d
        objs.append(o); cls.append(-2)
    hdr = 36; no = hdr; io = no + len(nt)
    def tail(eo):
        e = b''; p = 0
        for c, o in zip(cls, objs): e += cint(c) + cint(0) + L('i', 0) + cint(7) + L('I', 0) + cint(len(o)) + cint(eo + p); p += len(o)
        return e
    eo = io + len(imp); base = eo + len(tail(100000)); t = tail(base)
    while len(t) + eo != base: base = len(t) + eo; t = tail(base)
    put(name, L('IHHIIIIIII', 0x9E2A83C1, 68, 0, 0, len(names), no, len(objs), eo, 2, io), nt, imp, t, *objs)
utx('u_pal.utx', [(8, 4, 0, i8(8, 4))]); utx('u_dxt.utx', [(8, 8, 3, dxt(8, 8, 8))], False); utx('u_two.utx', [(8, 4, 0, i8(8, 4)), (4, 4, 3, dxt(4, 4, 8)), (4, 2, 0, i8(4, 2))])
# ---- TIFF variants ----
def ifd(entries, off, nxt=0):               # entries: tag, type, values ; -> bytes
    es = b''; extra = b''; eoff = off + 2 + 12 * len(entries) + 4
    for tag, ty, v in sorted(entries):
        d = v if isinstance(v, bytes) else b''.join(L({3: 'H', 4: 'I', 5: 'II', 1: 'B'}[ty], *(x if isinstance(x, tuple) else (x,))) for x in v)
        n = len(v)
        if len(d) <= 4: es += L('HHI', tag, ty, n) + d.ljust(4, b'\0')
        else: es += L('HHII', tag, ty, n, eoff + len(extra)); extra += d + (b'\0' if len(d) & 1 else b'')
    return L('H', len(entries)) + es + L('I', nxt) + extra
def page(base, w, h, bps, n, photo, data, extra=(), planar=1, last=True, rps=None, tile=None):
    # strips first, then the directory
    rps = rps or h
    strips = data if isinstance(data, list) else [data]
    offs = []; p = base
    for s in strips: offs.append(p); p += len(s) + (len(s) & 1)
    body = b''.join(s + (b'\0' if len(s) & 1 else b'') for s in strips)
    e = [(256, 4, [w]), (257, 4, [h]), (258, 3, [bps] * n), (259, 3, [1]), (262, 3, [photo]), (277, 3, [n]), (284, 3, [planar])]
    e += [(322, 4, [tile[0]]), (323, 4, [tile[1]]), (324, 4, offs), (325, 4, [len(s) for s in strips])] if tile else [(273, 4, offs), (278, 4, [rps]), (279, 4, [len(s) for s in strips])]
    e += list(extra)
    d = ifd(e, p)
    return body, p, e, d
def tiff(name, *pages):
    out = b''; base = 8; dirs = []; first = 0; prev = None
    for kw in pages:
        body, p, e, d = page(base, **kw)
        dirs.append((p, e)); out += body + d; base += len(body) + len(d)
    # link: rewrite every directory with its successor
    res = bytearray(b'II*\0' + L('I', dirs[0][0]) + out)
    for i, (p, e) in enumerate(dirs):
        nx = dirs[i + 1][0] if i + 1 < len(dirs) else 0
        res[p + 2 + 12 * len(e):p + 6 + 12 * len(e)] = L('I', nx)
    put(name, bytes(res))
def strips(w, h, n, k): r = rows(w, h, n); return [b''.join(r[i:i + k]) for i in range(0, h, k)]
tiff('t_pages.tif', dict(w=7, h=5, bps=8, n=3, photo=2, data=img(7, 5, 3)), dict(w=4, h=6, bps=8, n=3, photo=2, data=img(4, 6, 3)), dict(w=9, h=3, bps=8, n=1, photo=1, data=img(9, 3, 1)))
tiff('t_white.tif', dict(w=7, h=5, bps=8, n=1, photo=0, data=strips(7, 5, 1, 2), rps=2))
tiff('t_bits1.tif', dict(w=11, h=5, bps=1, n=1, photo=1, data=img(2, 5, 1)))
tiff('t_pal.tif', dict(w=7, h=5, bps=8, n=1, photo=3, data=img(7, 5, 1), extra=[(320, 3, [(i * 257) & 0xffff for c in range(3) for i in range(256)])]))
tiff('t_pal4.tif', dict(w=8, h=5, bps=4, n=1, photo=3, data=img(4, 5, 1), extra=[(320, 3, [(i * 4369) & 0xffff for c in range(3) for i in range(16)])]))
tiff('t_cmyk.tif', dict(w=7, h=5, bps=8, n=4, photo=5, data=img(7, 5, 4)))
tiff('t_sep.tif', dict(w=7, h=5, bps=8, n=3, photo=2, data=[img(7, 5, 1), img(7, 5, 1)[::-1], img(7, 5, 1)], planar=2))
tiff('t_tile.tif', dict(w=40, h=36, bps=8, n=3, photo=2, data=[img(32, 32, 3)] * 4, tile=(32, 32)))   # tiles of a multiple of 1024 bytes: libtiff without mmap refuses others
tiff('t_alpha.tif', dict(w=7, h=5, bps=8, n=4, photo=2, data=strips(7, 5, 4, 2), rps=2, extra=[(338, 3, [2]), (274, 3, [4]), (270, 2, b'a description\0'), (315, 2, b'an artist\0')]))
tiff('t_icc.tif', dict(w=7, h=5, bps=8, n=3, photo=2, data=img(7, 5, 3), extra=[(34675, 7, img(20, 1, 3)), (282, 5, [(300, 1)]), (283, 5, [(300, 1)]), (296, 3, [2]), (286, 5, [(2, 1)]), (287, 5, [(3, 1)])]))
tiff('t_16.tif', dict(w=7, h=5, bps=16, n=1, photo=1, data=img(7, 5, 2)))

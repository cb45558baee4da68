"""C28 Textures are converted to PNG with the right pixels"""
import io
import os
from PIL import Image
from vf.core import Scenario
from vf import texw
from vf.mem import tree, files_only
from cdtb.export import TexConverter, ImageConverter, FileConversionError

PROPERTY = 'C28'
RULE = "a case converts one generated texture or image and reads the PNG back; distinct signature = (format, width, height, mipmaps or damage)"
ASSUMPTIONS = ["BC5 channels are signed, as the converter declares them; block-compressed colours may differ by a few levels (rounding of interpolated colours is not specified); BC7 blocks use mode 6, decoded exactly", "16-bit textures cannot be decoded by the installed image library: they must fail cleanly"]
SIZES = [1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 20, 31, 32]

NAMES = ['a/b.c/img', 'x', 'a/icon.v2.1', 'x.y', 'a b/c d', 'a.tex/b.dds', 'assets/x.tex.old', 'n.png']


def convert(ctx, conv, data, name, before=None):
    d = ctx.dir()
    if before is not None:
        p = os.path.join(d, name.rsplit('.', 1)[0] + '.png')
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(before)
    # the exporter only converts what a converter says it handles
    ctx.check(conv.is_handled(name), 'handled', f"{name!r} is not handled")
    ctx.equal(list(conv.converted_paths(name)), [name.rsplit('.', 1)[0] + '.png'], 'paths', f"converted paths of {name!r}")
    try:
        conv.convert(io.BytesIO(data), d, name)
    except FileConversionError as e:
        return d, e
    return d, None


def compare(ctx, d, name, w, h, px, tol, what):
    t = files_only(tree(d))
    png = name.rsplit('.', 1)[0] + '.png'
    ctx.equal(sorted(t), [png], 'files', f"{what}: files")
    ctx.check(t[png][:8] == b'\x89PNG\r\n\x1a\n', 'png', f"{what}: not a PNG file: {t[png][:8]!r}")
    im = Image.open(io.BytesIO(t[png]))
    ctx.equal(im.size, (w, h), 'size', f"{what}: size")
    im = im.convert('RGBA')
    acc = im.load()
    for (x, y), p in px.items():
        g = acc[x, y]
        for a, b in zip(g, p):
            ctx.check(b is None or abs(a - b) <= tol, 'pixels', f"{what}: pixel {x},{y} is {g} instead of {p}")
    ctx.count('pixels', len(px))


def textures(ctx, rng, tier, far=False):
    fmt = rng.choice(texw.FORMATS)
    w, h = rng.choice(SIZES), rng.choice(SIZES)
    if rng.random() < .02:
        w, h = rng.choice([(256, 4), (4, 300), (130, 70)])
    if far:
        # sizes that need all of their 16 bits
        w = rng.choice([32768, 32769, 40000, 65535])
        h = rng.choice([1, 2])
        if rng.random() < .5:
            w, h = h, w
    mips = rng.random() < .5
    data, full = texw.tex(rng, fmt, w, h, mips)
    px, tol = texw.decode(fmt, w, h, full)
    name = rng.choice(NAMES + ['game/assets/Upper']) + '.tex'
    what = f"{texw.NAMES[fmt]} {w}x{h}{' with mipmaps' if mips else ''}"
    d, err = convert(ctx, TexConverter(), data, name, b'old' if rng.random() < .2 else None)
    ctx.check(err is None, 'refused', f"{what}: {err}")
    compare(ctx, d, name, w, h, px, tol, what)
    ctx.count(texw.NAMES[fmt] + ('_mips' if mips else '')); ctx.count('far', far)
    ctx.nontrivial(fmt, w, h, mips)


def long_textures(ctx, rng, tier):
    textures(ctx, rng, tier, far=True)


def images(ctx, rng, tier):
    kind = rng.choice(['DXT1', 'DXT5', 'BGRA', 'BGR', 'tga32', 'tga24', 'tga8', 'tga32rle', 'tga24rle', 'tga8rle', 'tgapal24', 'tgapal32'])
    w, h = rng.choice(SIZES), rng.choice(SIZES)
    if kind.startswith('tga'):
        data, px, tol = texw.tga(rng, kind, w, h)
        name = rng.choice(NAMES) + '.tga'
    else:
        mips = rng.random() < .5
        data, px, tol = texw.dds(rng, kind, w, h, mips)
        name = rng.choice(NAMES) + '.dds'
    what = f"{kind} {w}x{h}"
    d, err = convert(ctx, ImageConverter(('.dds', '.tga')), data, name, b'old' if rng.random() < .2 else None)
    ctx.check(err is None, 'refused', f"{what}: {err}")
    compare(ctx, d, name, w, h, px, tol, what)
    ctx.count(kind)
    ctx.nontrivial(kind, w, h)


def damaged(ctx, rng, tier):
    w, h = rng.choice(SIZES), rng.choice(SIZES)
    k = rng.choice(['cut', 'cut', 'cut_mips', 'cut_mips', 'magic', 'format', 'header', 'empty', 'text', 'rgba16', 'image_cut', 'image_magic', 'image_text'])
    conv, name = TexConverter(), 'a/x.tex'
    fmt = rng.choice(texw.FORMATS)
    mips = k == 'cut_mips' or rng.random() < .5 and k != 'cut'
    data, full = texw.tex(rng, fmt, w, h, mips)
    if k in ('cut', 'cut_mips'):
        data = data[:len(data) - rng.choice([1, 4, len(full), max(1, len(full) // 2), rng.randrange(1, len(data) - 12 + 1)])]
    elif k == 'magic':
        data = rng.choice([b'TEX\1', b'tex\0', b'DDS ', b'\0\0\0\0']) + data[4:]
    elif k == 'format':
        data = data[:9] + bytes([rng.choice([0, 1, 9, 0x0b, 0x0f, 0x13, 0x16, 0xff])]) + data[10:]
    elif k == 'header':
        data = data[:rng.randrange(12)]
    elif k == 'empty':
        data = b''
    elif k == 'text':
        data = rng.choice([b'not a texture', b'TEX\0', b'TEX\0' + bytes(40), b'{"json": 1}'])
    elif k == 'rgba16':
        data, full = texw.tex(rng, texw.RGBA16, w, h, mips)
    else:
        kind = rng.choice(['DXT1', 'DXT5', 'BGRA', 'BGR', 'tga32', 'tga24'])
        if kind.startswith('tga'):
            data, px, tol = texw.tga(rng, kind, w, h)
            name = 'a/x.tga'
        else:
            data, px, tol = texw.dds(rng, kind, w, h)
            name = 'a/x.dds'
        conv = ImageConverter(('.dds', '.tga'))
        if k == 'image_cut':
            data = data[:rng.choice([len(data) - 1, 0, 3, rng.randrange(len(data))])]
        elif k == 'image_magic':
            name = 'a/x.dds'
            data = rng.choice([b'DDX ', b'\0\0\0\0', b'PROP']) + (data[4:] if data[:4] == b'DDS ' else bytes(200))
        else:
            data = rng.choice([b'', b'some text', b'<svg></svg>', b'DDS ', b'DDS ' + bytes(124)])
    before = rng.choice([None, b'old content'])
    what = f"{k}: {len(data)} bytes of {texw.NAMES[fmt]} {w}x{h}"
    d, err = convert(ctx, conv, data, name, before)
    if err is None and k == 'rgba16':
        ctx.count('rgba16_supported')
        return
    ctx.check(err is not None, 'accepted', f"{what}: converted without an error")
    t = files_only(tree(d))
    ctx.check(not t, 'left', f"{what}: {sorted(t)} left after the failure")
    ctx.count('failed'); ctx.count('bad_' + k)
    ctx.nontrivial(k, fmt, w, h, len(data))


SCENARIOS = [Scenario(textures, 500, 10000), Scenario(images, 250, 5000), Scenario(damaged, 500, 10000), Scenario(long_textures, 10, 200)]
REQUIRED = {'pixels': 20000, 'failed': 300, **{n + m: 20 for n in ('BC1', 'BC3', 'BC5', 'BC7', 'BGRA8') for m in ('', '_mips')}, 'DXT1': 8, 'DXT5': 8, 'BGRA': 8, 'BGR': 8, 'tga32': 8, 'tga24rle': 8, 'tgapal24': 8, 'tgapal32': 8,
            'bad_cut': 20, 'bad_cut_mips': 20, 'bad_magic': 10, 'bad_format': 10, 'bad_header': 10, 'bad_image_cut': 10, 'far': 1}

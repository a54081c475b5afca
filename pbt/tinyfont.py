"""Small TrueType fonts whose every number is known, and a fontconfig set-up
that sees nothing but them."""
import os
import struct

UPEM = 1000
WIDTH_CLASS = {50: 1, 63: 2, 75: 3, 87: 4, 100: 5, 113: 6, 125: 7, 150: 8,
               200: 9}
SLANT_NAME = {'normal': 'Regular', 'italic': 'Italic', 'oblique': 'Oblique'}


def _glyph(advance, height):
    """A filled rectangle from the base line up."""
    if height == 0:
        return b''
    x0, x1 = 20, max(advance - 20, 40)
    out = struct.pack('>hhhhh', 1, x0, 0, x1, height)
    out += struct.pack('>HH', 3, 0)
    out += bytes([1, 1, 1, 1])  # on curve, words
    out += struct.pack('>hhhh', x0, 0, x1 - x0, 0)
    out += struct.pack('>hhhh', 0, height, 0, -height)
    if len(out) % 2:
        out += b'\0'
    return out


def _names(family, style):
    full = '{} {}'.format(family, style)
    names = [(1, family), (2, style), (4, full),
             (6, full.replace(' ', '') or 'x')]
    records, data = b'', b''
    for id_, text in names:
        raw = text.encode('utf-16-be')
        records += struct.pack('>6H', 3, 1, 0x409, id_, len(raw), len(data))
        data += raw
    return struct.pack('>3H', 0, len(names), 6 + len(records)) + records + data


def build(family, width, weight, slant, glyphs, ascent, descent):
    """Returns the bytes of a font.

    glyphs: {character: (advance, height)} in font units; descent > 0.
    """
    chars = sorted(glyphs)
    order = [(500, 700)] + [glyphs[c] for c in chars]
    italic = slant != 'normal'
    bold = weight >= 700
    style = '{} W{} S{}'.format(SLANT_NAME[slant], width, weight)
    glyf, loca = b'', [0]
    for advance, height in order:
        glyf += _glyph(advance, height)
        loca.append(len(glyf) // 2)
    advance_max = max(a for a, _h in order)
    head = struct.pack(
        '>IIIIHHQQhhhhHHhhh', 0x10000, 0x10000, 0, 0x5f0f3cf5, 0, UPEM, 0, 0,
        0, -descent, advance_max, ascent, bold | italic << 1, 8, 2, 0, 0)
    hhea = struct.pack('>IhhhHhhhhhhhhhhhH', 0x10000, ascent, -descent, 0,
                       advance_max, 0, 0, advance_max, 1, 0, 0, 0, 0, 0, 0, 0,
                       len(order))
    maxp = struct.pack('>IHHHHHHHHHHHHHH', 0x10000, len(order), 4, 1, 0, 0, 2,
                       0, 0, 0, 0, 8, 8, 0, 0)
    selection = italic | bold << 5 | (not italic and not bold) << 6
    if slant == 'oblique':
        selection |= 1 << 9
    os2 = struct.pack('>HhHHH', 4, 500, weight, WIDTH_CLASS[width], 0)
    os2 += struct.pack('>11h', *[100] * 10, 0)
    os2 += bytes(10) + struct.pack('>4I', 1, 0, 0, 0) + b'TEST'
    os2 += struct.pack('>HHHhhhHH', selection, min(map(ord, chars), default=0),
                       min(max(map(ord, chars), default=0), 0xffff),
                       ascent, -descent, 0, ascent, descent)
    os2 += struct.pack('>IIhhHHH', 1, 0, 500, 700, 0, 32, 2)
    hmtx = b''.join(struct.pack('>Hh', a, 20 if h else 0) for a, h in order)
    groups = b''.join(struct.pack('>III', ord(c), ord(c), i + 1)
                      for i, c in enumerate(chars))
    sub = struct.pack('>HHIII', 12, 0, 16 + len(groups), 0, len(chars))
    cmap = struct.pack('>HHHHI', 0, 1, 3, 10, 12) + sub + groups
    post = struct.pack('>IIhhI', 0x30000, 0, 0, 0, 0) + bytes(16)
    tables = {
        # a program that does nothing keeps the automatic hinter away
        b'OS/2': os2, b'cmap': cmap, b'fpgm': b'\xb0\0\x21', b'glyf': glyf, b'head': head,
        b'hhea': hhea, b'hmtx': hmtx,
        b'loca': struct.pack('>{}H'.format(len(loca)), *loca), b'maxp': maxp,
        b'name': _names(family, style), b'post': post}
    out = struct.pack('>IHHHH', 0x10000, len(tables), 128, 3,
                      len(tables) * 16 - 128)
    offset = 12 + 16 * len(tables)
    body = b''
    for tag in sorted(tables):
        data = tables[tag]
        padded = data + bytes(-len(data) % 4)
        total = sum(struct.unpack('>{}I'.format(len(padded) // 4), padded))
        out += struct.pack('>4sIII', tag, total & 0xffffffff, offset,
                           len(data))
        offset += len(padded)
        body += padded
    return out + body


def configure(folder, fonts, aliases):
    """Writes the fonts {file name: bytes} and a configuration with
    the aliases [(family, accepted family, binding)]; returns its path."""
    os.makedirs(os.path.join(folder, 'fonts'), exist_ok=True)
    for name, data in fonts.items():
        with open(os.path.join(folder, 'fonts', name), 'wb') as fp:
            fp.write(data)
    conf = ['<?xml version="1.0"?>',
            '<!DOCTYPE fontconfig SYSTEM "fonts.dtd">', '<fontconfig>',
            '<dir>{}/fonts</dir>'.format(folder),
            '<cachedir>{}/cache</cachedir>'.format(folder)]
    for family, target, binding in aliases:
        conf.append('<alias binding="{}"><family>{}</family><prefer>'
                    '<family>{}</family></prefer></alias>'.format(
                        binding, family, target))
    conf += ['<match target="pattern"><edit name="family" mode="append_last"'
             ' binding="weak"><string>sans-serif</string></edit></match>',
             '<alias><family>sans-serif</family><prefer><family>{}</family>'
             '</prefer></alias>'.format(
                 dict((f, t) for f, t, _b in aliases)['sans-serif']),
             '</fontconfig>']
    path = os.path.join(folder, 'fonts.conf')
    with open(path, 'w') as fp:
        fp.write('\n'.join(conf))
    return path

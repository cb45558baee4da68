"""C22 Searching archives finds the paths they mention"""
import contextlib
import io
import json
import os
import re
import struct
from vf.core import Scenario
from vf import binw, env, gen, hashw, mem, wadw
from vf.hashw import hash_of, join, split_dir
from cdtb.hashes import LcuHashGuesser, GameHashGuesser
from cdtb.wad import Wad

PROPERTY = 'C22'
RULE = "a case is one archive (or a set of archives) with files mentioning wanted paths amid other bytes; distinct signature = (file types, forms of the mentions, damage of the archive)"
ASSUMPTIONS = ["text around a mention does not itself look like the start of a mention that swallows it",
               "client text files are UTF-8; a path that is mentioned without its length ends before a character that no path has"]
GAME = 'plugins/rcp-be-lol-game-data/global/default/'


def mixed(rng, p):
    """Random letter case"""
    r = rng.random()
    if r < .3:
        return p
    if r < .5:
        return p.upper()
    if r < .7:
        return p.title()
    return ''.join(c.upper() if rng.random() < .5 else c for c in p)


def name(rng, ext):
    if rng.random() < .04:
        # longer than what fits one byte of a length
        n = rng.choice([240, 300, 800])
        return '/'.join(f"{rng.choice('abxyz')}{rng.randrange(10**9)}" for _ in range(n // 10)) + f"/q{rng.randrange(10**6)}" + ext
    return '/'.join([rng.choice(['annie', 'maps', 'x_1', 'particles', 'skin02', 'a.b', 'map-11']) for _ in range(rng.choice([0, 1, 3]))] + [f"{rng.choice(['icon', 'q_2', 'x-y', 'tx.cm', 'z'])}{rng.randrange(10**6)}" + ext])


def noise(rng, binary=True):
    """Arbitrary bytes; some of them are almost a mention"""
    r = rng.random()
    if not binary:
        return rng.choice(['', 'x', '  ', '\n', 'var a = 1;', '{"k": [1, 2]}', 'é中', '//', '"', "'", '<div class="a">', '\x00\x01', 'DATA', 'assets', ' \t\\', 'http://x.y/z '])
    if r < .15:
        return b''
    if r < .55:
        return rng.randbytes(rng.choice([1, 2, 3, 9, 60]))
    if r < .7:
        return rng.choice([b'ASSETS', b'DATA', b'DAT/A', b'Characters', b'ASSET/S', b'assets/', b'\xff\xffDATA', b'\0\0\0\0', b'Name=', b'ATA/x'])
    if r < .85:
        return bytes(rng.choice([1, 4, 30]))
    return bytes(rng.randrange(32, 127) for _ in range(rng.choice([1, 5, 20]))).replace(b'/', b'.')


# --- game files: each returns (extension of the file, content, wanted paths, forms)

def bin_mention(rng):
    """(text, wanted)"""
    f = rng.choice(['assets', 'data', 'gameplay', 'characters', 'lua', 'shaders', 'mapgeometry', 'maps', 'clientstates', 'patching', 'loadouts', 'png'])
    if f in ('assets', 'data', 'gameplay'):
        prefix = {'assets': 'ASSETS/', 'data': 'DATA/', 'gameplay': 'Gameplay/'}[f]
        p = name(rng, rng.choice(['.dds', '.tex', '.bin', '.anm', '', '.skn']))
        return f, prefix + mixed(rng, p), [prefix.lower() + p]
    if f == 'png':
        p = name(rng, '')
        return f, 'ASSETS/' + mixed(rng, p + '.png'), [f"assets/{p}.png", f"assets/{p}.dds"]
    if f == 'characters':
        p = name(rng, rng.choice(['', '.bin']))
        return f, 'Characters/' + mixed(rng, p), ['characters/' + p, 'assets/characters/' + p, 'data/characters/' + p]
    if f == 'lua':
        p = name(rng, '')
        return f, 'DATA/' + mixed(rng, p + '.lua'), [f"data/{p}{e}" for e in ('.lua', '.luabin', '.luabin64', '.preload')]
    if f == 'shaders':
        p = name(rng, '')
        exts = ['.ps_2_0', '.ps_3_0', '.vs_2_0', '.vs_3_0', '.ps', '.vs']
        return f, 'Shaders/' + mixed(rng, p), [f"assets/shaders/generated/shaders/{p}{rng.choice(exts)}{rng.choice(['', '', '.dx11', '.dx9', '.dx9sm3', '.glsl', '.metal', '-dx11', '-metal'])}" for _ in range(4)]
    if f == 'mapgeometry':
        p = name(rng, '')
        return f, 'Maps/' + mixed(rng, 'mapgeometry/' + p), [f"data/maps/mapgeometry/{p}.mapgeo", f"data/maps/mapgeometry/{p}.materials.bin"]
    prefix = {'maps': 'Maps/', 'clientstates': 'ClientStates/', 'patching': 'Patching/', 'loadouts': 'Loadouts/'}[f]
    p = f"a{rng.randrange(10**6)}/b{rng.randrange(10**6)}/" + name(rng, '').split('/')[-1]
    full = prefix.lower() + p
    return f, prefix + mixed(rng, p), [full, full.rsplit('/', 1)[0], full.rsplit('/', 2)[0]]


def f_bin(rng):
    wanted, forms, data = [], [], b''
    real = rng.random() < .4
    if real:
        age = rng.choice([912, 1010, 1415, 1600])
        fields = []
        g = binw.Gen(rng, age, binw.pools(rng, hash_of)[0])
        for i in range(rng.choice([1, 2, 6])):
            f, text, w = bin_mention(rng)
            wanted += w
            forms.append(f)
            v = ('STRING', text)
            r = rng.random()
            if r < .3:
                v = ('LIST', 'STRING', [('STRING', 'x'), v, ('STRING', '')])
            elif r < .5:
                v = ('OPTION', 'STRING', v)
            elif r < .7:
                v = ('EMBEDDED', 77, [(1, v), (2, ('STRING', 'ASSETS'))])
            elif r < .8:
                v = ('MAP', 'HASH', 'STRING', [(('HASH', 5), v)])
            fields += g.fields(1, rng.choice([0, 1]))
            fields.append((1000 + i, v))
        linked = []
        if rng.random() < .5:
            p = name(rng, '.bin')
            linked = ['DATA/' + mixed(rng, p)]
            wanted.append('data/' + p)
            forms.append('linked')
        data = binw.enc_file([(7, 8, fields)], age, 3, linked)
    else:
        data = rng.choice([b'PROP', b'PTCH', b''])
        for _ in range(rng.choice([1, 2, 6])):
            f, text, w = bin_mention(rng)
            wanted += w
            forms.append(f)
            b = text.encode()
            if b.lower().startswith((b'assets/', b'data/')) and not b.lower().endswith(b'.lua') and len(b) > 9 and rng.random() < .2:
                # the start of another mention, before or after it
                c = rng.choice([b[:-1], b[:-4], b[:64], b + b'x', b + b'/y.dds', b.partition(b'/')[0] + b'/' + b'x' * 57])
                long = rng.choice([c, c + b'/z.dds'])
                for m in rng.sample([c, long], 2):
                    data += noise(rng) + struct.pack('<H', len(m)) + m
                    wanted.append(m.decode('ascii').lower())
                forms.append('start of another')
            data += noise(rng) + struct.pack('<H', len(b)) + b
            if rng.random() < .3:
                data += rng.choice([b'\xe9', b'abc', b'/x.dds', struct.pack('<H', 6) + b'DATA/\xe9'])
        data += noise(rng)
    return rng.choice(['bin', 'bin', 'inibin']), data, wanted, forms


def f_preload(rng, path):
    data, wanted, forms = rng.choice([b'PreLoadBuildingBlocks = {\n', b'']), [], []
    d = split_dir(path)[0] if path else None
    for _ in range(rng.choice([1, 2, 5])):
        f = rng.choice(['lua', 'troy', 'preload'])
        p = name(rng, '')
        if f == 'lua':
            p = 'data/' + p
            wanted += [p + '.lua', p + '.luabin', p + '.luabin64']
            text = p + '.lua'
        elif f == 'troy':
            if rng.random() < .3:
                p += rng.choice(['_tar', '_fort', '_glow.o', '_decoy', '.troy'])
            text = p + '.troy'
            wanted.append(f"data/shared/particles/{p}.troybin")
        else:
            if d is None:
                continue
            text = p = p.replace('.', '_')
            wanted.append(join(d.rstrip('/'), p + '.preload'))
        forms.append('preload-' + f)
        data += rng.choice([b'', b'  { Type = 1, ', b'Name="\xe9t\xe9"\n', b'\xff\xfe', b'Name=""', b'Name="x y"; ']) + b'Name="' + mixed(rng, text).encode() + b'"' + rng.choice([b'', b', }\r\n', b'\n', b'Name'])
    return 'preload', data, wanted, forms


def f_shader(rng, path):
    data, wanted, forms = b'', [], []
    d = split_dir(path)[0].rstrip('/')
    for _ in range(rng.choice([1, 2, 4])):
        p = name(rng, rng.choice(['.h', '.hls', '.ps_2_0']))
        up = rng.choice([0, 0, 1, 2])
        parts = d.split('/') if d else []
        if up > len(parts):
            up = 0
        text = '../' * up + p
        if rng.random() < .2:
            text = './' + text
        base = '/'.join(parts[:len(parts) - up])
        wanted.append(join(base, p))
        forms.append(f"include-{up}")
        data += rng.choice([b'', b'// \xe9\n', b'#include <x>\n', b'#include "\xe9"\n', b'float4 a;\n', b'#include ""\n']) + b'#include "' + mixed(rng, text).encode() + b'"' + rng.choice([b'\n', b'\r\n', b' // x\n'])
    return rng.choice(['hls', 'ps_2_0', 'ps_3_0', 'vs_2_0', 'vs_3_0']), data, wanted, forms


def f_atlas(rng, path):
    d = split_dir(path)[0].rstrip('/')
    lines, wanted = [], []
    eol = rng.choice([b'\n', b'\n', b'\r\n'])
    for _ in range(rng.choice([1, 2, 4])):
        p = name(rng, '.png')
        lines += [rng.choice([b'', b'size: 10, 20', b'\xe9', b'  rotate: false'])] * rng.choice([0, 1]) + [mixed(rng, p).encode()]
        wanted.append(join(d, p))
    return 'atlas', eol.join(lines) + rng.choice([b'', eol]), wanted, ['atlas' + ('-crlf' if len(eol) > 1 else '')]


def f_text(rng):
    """Other files: path-like strings, with or without their length"""
    data, wanted, forms = b'', [], []
    for _ in range(rng.choice([1, 2, 6])):
        prefix = rng.choice(['ASSETS/', 'Common/', 'DATA/', 'DATA_SOON/', 'DATA_Soon/', 'Gameplay/', 'Global/', 'LEVELS/', 'Loadouts/', 'UX/', 'UIAutoAtlas/'])
        lua = rng.random() < .15
        p = name(rng, '' if lua else rng.choice(['.dds', '.tex', '.bin', '', '.json']))
        if rng.random() < .1:
            p = 'with space/' + p
        elif rng.random() < .1:
            p = rng.choice('abcxyz') + str(rng.randrange(100)) + rng.choice(['', '.x', '.dds'])
            lua = False
        text = prefix + mixed(rng, p + ('.lua' if lua else ''))
        low = prefix.lower().replace('data_soon/', 'data/') + p
        w = [low] if not lua else [low + e for e in ('.lua', '.luabin', '.luabin64', '.preload')]
        how = rng.choice(['end', 'end', 'u16', 'u32'])
        n = len(text)
        if how == 'end':
            pre = rng.choice([b'"', b"'", b'=', b'\0', b'\n', b'(', b'\xff'])
            data += noise(rng) + pre + text.encode() + rng.choice([b'"', b"'", b'\0', b'\n', b',', b'\r\n', b'\xe9', b'\x01'])
        else:
            # the length may be the very start of the file
            data += (noise(rng) + b'\xff' if data or rng.random() < .8 else b'') + struct.pack('<H' if how == 'u16' else '<L', n) + text.encode() + rng.choice([b'', b'abc', b'.dds', b'/x y', b'\0', b'z'])
            data += b'\1' if rng.random() < .5 else b''
            if not data.endswith(b'\1'):
                # what follows is not read as a mention of its own
                data += b'\0'
        wanted += w
        forms.append(f"{prefix[:-1]}-{how}{'-lua' if lua else ''}")
    return rng.choice(['luabin64', 'luabin', 'txt', 'mapgeo', 'json', 'ini', 'xml', 'cfg', 'svg', 'css', 'js', 'inc', 'lua', 'mob', 'unknown']), data, wanted, forms


# --- client files: content and wanted; `dirs` are known directories

def client_text(rng, dirs):
    out, wanted, forms = '', [], []
    for _ in range(rng.choice([1, 2, 5])):
        f = rng.choice(['fe', 'DATA', 'assets', 'dot', 'quoted', 'template', 'map'])
        forms.append(f)
        if f == 'fe':
            pl, p = rng.choice(['lol-loot', 'audio', 'x1']), name(rng, rng.choice(['.png', '.js', '', '@2x.png']))
            text = rng.choice(['/', '', '"/', "url('/"]) + f"fe/{mixed(rng, pl)}/{mixed(rng, p)}"
            wanted.append(f"plugins/rcp-fe-{pl}/global/default/{p}")
            end = rng.choice(['"', "'", ' ', '\n', ')', '?v=1', '<', '\\', 'é', ',', ''])
            out += rng.choice([' ', '"', '\n', '(', '=', "'"]) + text + end + ('\n' if not end else '')
        elif f == 'DATA':
            p = name(rng, rng.choice(['.png', '.jpg', '.json', '', '@2x.png']))
            out += rng.choice([' ', '"', '\n', '(', 'x']) + '/DATA/' + mixed(rng, p) + rng.choice(['"', ' ', '\n', '\\', '}'])
            wanted.append(GAME + 'data/' + p)
        elif f == 'assets':
            p = name(rng, rng.choice(['.png', '.jpg', '.json', '', '@2x.png']))
            out += rng.choice(['"/', '"', '/', ' ']) + 'lol-game-data/assets/' + mixed(rng, p) + rng.choice(['"', ' ', '\n', '\\', '}'])
            wanted.append(GAME + p)
        elif f == 'dot':
            p = name(rng, rng.choice(['.js', '.png', '.html', '']))
            out += rng.choice(['"', "'", '(', ' ', '=']) + rng.choice(['./', '../', '../../', './../']) + mixed(rng, p) + rng.choice(['"', "'", ')', ' ', '\n', '?x'])
            wanted.append(join(rng.choice(dirs), p))
        elif f == 'quoted':
            p = name(rng, rng.choice(['.js', '.json', '.webm', '.html', '.png', '.svg', '.css', '.min.js', '@2x.png']))
            q = rng.choice('"\'')
            out += q + mixed(rng, split_dir(p)[0]) + (lambda s: s.rsplit('.', 1)[0].upper() + '.' + s.rsplit('.', 1)[1] if rng.random() < .3 else s)(split_dir(p)[1]) + rng.choice([q, '?v=1' + q, '#a' + q])
            wanted.append(join(rng.choice(dirs), p))
        elif f == 'template':
            t = f"tpl-{rng.randrange(10**6)}"
            out += f'<template id="{rng.choice(["lol-x", "rcp-fe", ""])}-template-{mixed(rng, t)}">'
            wanted.append(join(rng.choice(dirs), t + '/template.html'))
        else:
            p = name(rng, '.js')
            out += '\n//# sourceMappingURL=' + mixed(rng, p[:-3]) + '.js.map\n'
            wanted.append(join(rng.choice(dirs), p))
            if rng.random() < .3:
                p2 = name(rng, '.js')
                out = out[:-1] + rng.choice([' ', ' //# ', '*/ /*# ']) + 'sourceMappingURL=' + p2 + '.map\n'
                wanted.append(join(rng.choice(dirs), p2))
        out += rng.choice(['\n', ' ; ', '\n\n', noise(rng, False) + '\n'])
    return out, wanted, forms


def client_json(rng):
    """(path of the file or None, content, wanted, form) of the known kinds of JSON files"""
    f = rng.choice(['trans', 'description', 'splash', 'summary', 'items'])
    if f == 'trans':
        keys = [f"chest_{rng.randrange(10**6)}" for _ in range(rng.choice([1, 4]))] + ['Maps']
        return 'plugins/rcp-fe-lol-loot/global/default/trans.json', {k: 'Text é' for k in keys}, [f"{GAME}v1/hextech-images/{k}.png" for k in keys], f
    if f == 'description':
        n = f"rcp-fe-x{rng.randrange(10**6)}"
        d = {'pluginDependencies': {}, 'name': n, 'x': [1]}
        return None, d, [f"plugins/{n}/global/default/{s}" for s in ('index.html', 'init.js', 'init.js.map', 'bundle.js', 'trans.json', 'css/main.css', 'license.json')], f
    if f == 'splash':
        n = rng.choice(['e{}', 'e{}', 'event-{}', 'new_year_{}', 'worlds-{}-x_y']).format(rng.randrange(10**6))
        spell = rng.choice([(str.upper, str), (str.upper, str.upper), (str.title, str.title), (str, str)])
        files = {'musicIntro': f"sound/Music-splash-{spell[0](n)}.ogg", 'bg': f"img/bg-splash-{spell[1](n)}.webm", 'other': 'Plain.jpg'}
        base = f"plugins/rcp-fe-lol-splash/global/default/splash-assets/{n}/"
        return None, {'musicVolume': 1, 'files': files}, [base + 'config.json'] + [base + v.lower() for v in files.values()], f
    if f == 'summary':
        ids = [-1] + [rng.randrange(1000) for _ in range(rng.choice([1, 5]))]
        return GAME + 'v1/champion-summary.json', [{'id': i, 'name': 'x'} for i in ids], [f"{GAME}v1/champions/{i}.json" for i in ids] + [f"{GAME}v1/champion-splashes/{i}/metadata.json" for i in ids], f
    ps = [name(rng, '.json') for _ in range(rng.choice([1, 3]))]
    return f"{GAME}v1/champions/{rng.randrange(999)}.json", {'id': 1, 'recommendedItemDefaults': ['/' + mixed(rng, 'data/' + p) for p in ps]}, [GAME + 'data/' + p for p in ps], f


ODD_JSON = [1, 0, None, True, "text", "pluginDependencies and name", [], [1], ['pluginDependencies', 'name'], ['musicVolume', 'files'], {'musicVolume': 1, 'files': 3}, {'musicVolume': 1, 'files': {'a': 1}},
            {'pluginDependencies': 1, 'name': '\ud800'}, {'pluginDependencies': 1, 'name': None}, {'recommendedItemDefaults': 4}, {'recommendedItemDefaults': [None, 3]}, {'recommendedItemDefaults': ['\udfff']},
            {'a\ud83d': 1}, [{'id': [1]}, 5], 1.5, ["recommendedItemDefaults"]]


def file_bytes(rng, e, toc):
    """Storage of an entry"""
    m = rng.choice([wadw.STORED, wadw.GZIP, wadw.ZSTD] + ([wadw.CHUNKED] * 2 if toc and len(e) > 3 else []))
    return m


class Archive:
    def __init__(self, rng, version=None):
        self.rng = rng
        self.version = version or rng.choice([(1, 0), (2, 0), (3, 0), (3, 1), (3, 3), (3, 4)])
        self.with_toc = self.version >= (3, 0) and rng.random() < .6
        self.entries, self.known, self.damaged = [], {}, 0
        self.toc = None
        if self.with_toc:
            p = f"data/{rng.randrange(10**6)}.wad.subchunktoc"
            self.toc = wadw.entry(hash_of(p), b'', rng.choice([wadw.STORED, wadw.ZSTD]), path=p)
            self.known[hash_of(p)] = p

    def add(self, path, data, known=True):
        rng = self.rng
        h = hash_of(path)
        if any(e['hash'] == h for e in self.entries):
            return False
        m = file_bytes(rng, data, self.with_toc)
        self.entries.append(wadw.entry(h, data, m, path=path, **({'chunks': rng.choice([1, 2, 5]), 'mixed': rng.random() < .7} if m == wadw.CHUNKED else {})))
        if known:
            self.known[h] = path
        return True

    def add_trouble(self):
        """A file that cannot be read, or is not what its name says"""
        rng = self.rng
        ext = rng.choice(['bin', 'json', 'txt', 'js', 'preload', 'html', 'hls', 'dds', 'atlas', 'luabin64'])
        path = f"{rng.choice(['plugins/rcp-fe-x/global/default', 'data/x', 'assets'])}/t{rng.randrange(10**6)}.{ext}"
        kind = rng.choice(['redirect', 'badgzip', 'badzstd', 'chunked', 'type', 'end', 'binary', 'json', 'deep', 'bignum', 'empty', 'utf16', 'random'])
        h = hash_of(path)
        kw = {'path': path}
        data, m = rng.randbytes(40), wadw.STORED
        if kind == 'redirect':
            kw['redirect'] = 'data/other.bin'
            m, data = wadw.REDIRECT, b''
        elif kind in ('binary', 'random'):
            data = rng.choice([b'\xff\xfe\0', b'\x80abc', b'', b'Name="\xe9"', b'#include "\xe9.h"', b'ASSETS/', b'\0ASSETS/', b'DATA/\xe9']) + rng.randbytes(rng.choice([0, 30]))
        elif kind == 'json':
            data = json.dumps(rng.choice(ODD_JSON)).encode()
            if rng.random() < .4:
                path = rng.choice(['plugins/rcp-fe-lol-loot/global/default/trans.json', GAME + 'v1/champion-summary.json'])
                h, kw['path'] = hash_of(path), path
            elif not path.endswith('.json'):
                path += '.json'
                h, kw['path'] = hash_of(path), path
        elif kind == 'deep':
            data = b'[' * 100000
        elif kind == 'bignum':
            data = b'{"a": ' + b'9' * 6000 + b'}'
        elif kind == 'empty':
            data = b''
        elif kind == 'utf16':
            data = '{"a": "ASSETS/x.dds"}'.encode('utf-16')
        if any(e['hash'] == h for e in self.entries):
            return
        e = wadw.entry(h, data, m, **kw)
        wadw.encode(rng, e)
        if kind in ('badgzip', 'badzstd', 'chunked'):
            e['stored'] = rng.randbytes(rng.choice([1, 10, 50]))
            e['type'] = {'badgzip': 1, 'badzstd': 3, 'chunked': 4 | 2 << 4}[kind]
        elif kind == 'type':
            e['type'] = rng.choice([5, 9, 15])
        elif kind == 'end':
            e['offset'] = 'end'
            e['stored'] = e['stored'] or b'x'
        if self.version[0] == 1 and kind in ('chunked',):
            e['type'] = 7
        self.entries.append(e)
        if rng.random() < .8:
            self.known[h] = e['path']
        self.damaged += 1
        return kind

    def write(self, path):
        rng = self.rng
        es = list(self.entries)
        rng.shuffle(es)
        if self.toc is not None:
            es.insert(rng.randrange(len(es) + 1), self.toc)
        wadw.write_file(path, wadw.write_wad(rng, es, self.version, toc=self.toc))


def search(kind, paths, hashes):
    """Guess from archives; returns the guesser and what it found"""
    wads = [Wad(p) for p in paths]
    g = (LcuHashGuesser if kind == 'lcu' else GameHashGuesser).from_wads(wads)
    g.unknown |= {h for h in hashes if h not in g.known}
    before = set(g.known)
    with contextlib.redirect_stdout(io.StringIO()):
        for w in g.wads:
            w.guess_extensions()
            g.grep_wad(w)
    return g, {h: p for h, p in g.known.items() if h not in before}


def verify(ctx, found, known, wanted, what, **details):
    missed = [p for p in wanted if hash_of(p) not in known and hash_of(p) not in found]
    ctx.check(not missed, 'missed', f"{what}: {missed[:4]} not found", **details)
    wrong = [p for p in wanted if hash_of(p) in found and found[hash_of(p)] != p]
    ctx.check(not wrong, 'missed', f"{what}: {wrong[:4]} listed under other paths")
    ctx.count('mentions found', len(wanted))


def game_content(rng, a, trouble):
    wanted, forms = [], []
    for i in range(rng.choice([1, 2, 4, 8])):
        f = rng.choice([f_bin, f_bin, f_text, f_text, f_preload, f_shader, f_atlas])
        d = rng.choice(['data/x', 'assets/fx/deep/er', 'data', ''])
        if f in (f_bin, f_text):
            ext, data, w, fs = f(rng)
            path = join(d, f"f{rng.randrange(10**6)}.{ext}")
            known = True
            if f is f_bin and data[:4] in (b'PROP', b'PTCH') and rng.random() < .4:
                known = False
            elif f is f_text and ext == 'unknown':
                known = False
        else:
            # the directory must be known
            path = join(d, f"f{rng.randrange(10**6)}")
            ext, data, w, fs = f(rng, path)
            path += '.' + ext
            known = True
        if not known and data[:4] not in (b'PROP', b'PTCH'):
            # the type is guessed from the content: it must not look like another one
            from cdtb.wad import WadFileHeader
            if data[:1] in b'[{"' or WadFileHeader.guess_extension(data) is not None:
                known = True
        if a.add(path, data, known):
            wanted += w
            forms += fs
    for _ in range(rng.choice([0, 1, 3]) if trouble else 0):
        forms.append(a.add_trouble())
    return wanted, forms


def lcu_content(rng, a, trouble, dirs):
    wanted, forms = [], []
    for i in range(rng.choice([1, 2, 4, 8])):
        if rng.random() < .3:
            path, obj, w, f = client_json(rng)
            path = path or f"plugins/rcp-fe-x/global/default/d{rng.randrange(10**6)}.json"
            known = True
            if f in ('description', 'splash') and rng.random() < .4:
                known = False
            data = json.dumps(obj, ensure_ascii=rng.random() < .5).encode('utf-8')
            fs = [f]
        else:
            text, w, fs = client_text(rng, dirs)
            ext = rng.choice(['js', 'html', 'css', 'json', 'txt', 'svg', 'js.map'])
            path = f"plugins/rcp-fe-x/global/default/f{rng.randrange(10**6)}.{ext}"
            data = text.encode('utf-8')
            known = rng.random() < .7
            if not known and (text[:1] in '<"[{' or re.match(r'\s*["\[{\d]', text) or data[6:10] in (b'JFIF', b'Exif')):
                known = True
        if rng.random() < .2:
            data = b'\xef\xbb\xbf' + data
        if a.add(path, data, known):
            wanted += w
            forms += fs
    for _ in range(rng.choice([0, 1, 3]) if trouble else 0):
        forms.append(a.add_trouble())
    return wanted, forms


DIRS = ['plugins/rcp-fe-x/global/default', 'plugins/rcp-fe-lol-loot/global/default/assets', 'plugins/rcp-be-lol-game-data/global/default/v1', 'plugins/p/euw/fr_fr/a/b']


def lcu_dirs(rng):
    known = {}
    for d in rng.sample(DIRS, rng.choice([1, 2, 4])):
        p = f"{d}/k{rng.randrange(100)}.png"
        known[hash_of(p)] = p
    return known, sorted(x for x in hashw.directories(known.values()) if x)


def game(ctx, rng, tier):
    """Mentions in game archives, next to files that cannot be read"""
    a = Archive(rng)
    trouble = rng.random() < .5
    wanted, forms = game_content(rng, a, trouble)
    path = os.path.join(ctx.dir(), 'x.wad.client')
    a.write(path)
    env.set_hashes('game', a.known)
    env.set_hashes('lcu', {})
    g, found = search('game', [path], {hash_of(p) for p in wanted})
    verify(ctx, found, a.known, wanted, 'game archive', forms=forms)
    for f in forms:
        ctx.count(f"game: {f}")
    if a.damaged:
        ctx.count('archives with unreadable or odd files')
    ctx.nontrivial('game', tuple(sorted(map(str, forms))), a.version, a.damaged)


def lcu(ctx, rng, tier):
    """Mentions in client archives, next to files that cannot be read"""
    a = Archive(rng)
    known, dirs = lcu_dirs(rng)
    a.known.update(known)
    wanted, forms = lcu_content(rng, a, rng.random() < .5, dirs)
    path = os.path.join(ctx.dir(), 'assets.wad')
    a.write(path)
    env.set_hashes('lcu', a.known)
    env.set_hashes('game', {})
    g, found = search('lcu', [path], {hash_of(p) for p in wanted})
    verify(ctx, found, a.known, wanted, 'client archive', forms=forms)
    for f in forms:
        ctx.count(f"lcu: {f}")
    if a.damaged:
        ctx.count('archives with unreadable or odd files')
    ctx.nontrivial('lcu', tuple(sorted(map(str, forms))), a.version, a.damaged)


def both(ctx, rng, tier):
    """Archives of both kinds: each guesser takes its own"""
    d = ctx.dir()
    paths, wanted, known = [], {'lcu': [], 'game': []}, {'lcu': {}, 'game': {}}
    k, dirs = lcu_dirs(rng)
    known['lcu'].update(k)
    own = {'lcu': set(), 'game': set()}
    for i in range(rng.choice([1, 2, 4])):
        kind = rng.choice(['lcu', 'game'])
        a = Archive(rng)
        w, _ = game_content(rng, a, True) if kind == 'game' else lcu_content(rng, a, True, dirs)
        p = os.path.join(d, f"{i}{rng.choice(['', '.en_US', '.wad'])}" + ('.wad.client' if kind == 'game' else '.wad'))
        a.write(p)
        paths.append(p)
        wanted[kind] += w
        known[kind].update(a.known)
        own[kind] |= {e['hash'] for e in a.entries + ([a.toc] if a.toc else [])}
    rng.shuffle(paths)
    # a wanted hash is one of an unknown file: put the wanted paths in archives as well
    for kind, ext in (('lcu', '.wad'), ('game', '.wad.client')):
        if wanted[kind] and rng.random() < .8:
            a = Archive(rng)
            for w in sorted(set(wanted[kind])):
                if hash_of(w) not in known[kind] and not w.endswith('.subchunktoc'):
                    a.add(w, b'\x89PNG\r\n\x1a\n' + rng.randbytes(4), known=False)
            p = os.path.join(d, 'wanted' + ext)
            a.write(p)
            own[kind] |= {e['hash'] for e in a.entries + ([a.toc] if a.toc else [])}
            known[kind].update(a.known)
            paths.insert(rng.randrange(len(paths) + 1), p)
    for kind in ('lcu', 'game'):
        env.set_hashes(kind, known[kind])
    mode = rng.choice(['api', 'command', 'command', 'dry'])
    if mode == 'api':
        wads = [Wad(p) for p in paths]
        for kind, cls, ext in (('lcu', LcuHashGuesser, '.wad'), ('game', GameHashGuesser, '.wad.client')):
            g = cls.from_wads(wads)
            ctx.equal(sorted(w.path for w in g.wads), sorted(p for p in paths if p.endswith(ext)), 'kind', f"archives of the {kind} guesser")
            ctx.equal(g.unknown, own[kind] - set(known[kind]), 'kind', f"wanted hashes of the {kind} guesser")
            with contextlib.redirect_stdout(io.StringIO()):
                for w in g.wads:
                    w.guess_extensions()
                    g.grep_wad(w)
            exp = [p for p in wanted[kind] if hash_of(p) in own[kind]]
            verify(ctx, {h: p for h, p in g.known.items() if h not in known[kind]}, known[kind], exp, f"{kind} archives")
    else:
        mem.run_cli(['hashes-guess', '-m', 'grep', '-s', f"patcher:{d}", *(['-n'] if mode == 'dry' else []), *paths])
        for kind in ('lcu', 'game'):
            saved = env.hashfile(kind).__class__(env.hashfile(kind).filename).load()
            exp = [p for p in wanted[kind] if hash_of(p) in own[kind]]
            if mode == 'dry':
                ctx.equal(saved, known[kind], 'dry-run', f"{kind} list after a dry run")
            else:
                verify(ctx, {h: p for h, p in saved.items() if h not in known[kind]}, known[kind], exp, f"{kind} archives of a command")
    ctx.count('archive sets: ' + mode)
    ctx.nontrivial('both', mode, len(paths), len(wanted['lcu']), len(wanted['game']))


def grep_file(ctx, rng, tier):
    """A file or a piece of data that is in no archive"""
    _, data, wanted, forms = f_text(rng)
    env.set_hashes('game', {})
    g = GameHashGuesser({hash_of(p) for p in wanted})
    with contextlib.redirect_stdout(io.StringIO()):
        if rng.random() < .5:
            p = os.path.join(ctx.dir(), 'x.exe')
            wadw.write_file(p, data)
            g.grep_file(p)
        else:
            g.grep_file(data=data)
    verify(ctx, dict(g.known), {}, wanted, 'data', forms=forms)
    ctx.nontrivial('file', tuple(forms), len(data))


def unknown_lists(ctx, rng, tier):
    """Unknown hashes listed by exports, and lists of hashes or paths"""
    d = os.path.join(ctx.dir(), rng.choice(['export', 'a [b]', 'x*', 'é']))
    os.makedirs(d)
    exp = set()
    for i in range(rng.choice([0, 1, 3])):
        hs = [hashw.rhash(rng) for _ in range(rng.choice([0, 1, 30]))]
        exp.update(hs)
        wadw.write_file(os.path.join(d, f"{rng.choice(['files', '13.1', 'é'])}{i}.unknown.txt"), ''.join(f"{h:016x}\n" for h in hs).encode())
    wadw.write_file(os.path.join(d, 'other.txt'), b'0000000000000007\n' if rng.random() < .5 else b'text\n')
    paths = [hashw.game_path(rng) for _ in range(rng.choice([1, 5]))]
    if rng.random() < .4:
        paths = [mixed(rng, p) for p in paths]  # hashed as they are written
    exp |= {hash_of(p) for p in paths}
    wadw.write_file(os.path.join(d, 'z.unknown.txt'), ''.join(f"{hash_of(p):016x}\n" for p in paths).encode())
    got = GameHashGuesser.unknown_from_export(d)
    ctx.equal(set(got), exp, 'unknown-list', "unknown hashes of an export")
    env.set_hashes('game', {})
    g = GameHashGuesser(got)
    words = [p for p in paths if not re.search(r'\s', p)]
    with contextlib.redirect_stdout(io.StringIO()):
        if rng.random() < .5:
            g.check_text_list(rng.choice(['\n', ' ', '\r\n', '\t']).join(words + ['other']))
            checked = words
        else:
            p = os.path.join(d, 'xdbg.log')
            wadw.write_file(p, ''.join(rng.choice(['', 'noise "x"\n', 'hash\n']) + f'hash: "{x}" 1234\n' for x in paths if '"' not in x).encode())
            g.check_xdbg_hashes(p)
            checked = [x for x in paths if '"' not in x]
    verify(ctx, dict(g.known), {}, checked, 'given lists')
    ctx.nontrivial('unknown', len(exp), tuple(sorted(paths))[:2])


SCENARIOS = [
    Scenario(game, 900, 25000),
    Scenario(lcu, 900, 25000),
    Scenario(both, 250, 8000),
    Scenario(grep_file, 300, 8000),
    Scenario(unknown_lists, 100, 3000),
]
REQUIRED = {'mentions found': 8000, 'archives with unreadable or odd files': 300, 'archive sets: command': 60, 'archive sets: dry': 20, 'archive sets: api': 20}
for _f in ('assets', 'data', 'characters', 'lua', 'shaders', 'mapgeometry', 'maps', 'clientstates', 'linked', 'preload-lua', 'preload-troy', 'preload-preload', 'include-0', 'include-1', 'atlas', 'atlas-crlf', 'png', 'redirect', 'binary', 'chunked'):
    REQUIRED['game: ' + _f] = 10
for _f in ('fe', 'DATA', 'assets', 'dot', 'quoted', 'template', 'map', 'trans', 'description', 'splash', 'summary', 'items', 'redirect', 'json', 'chunked'):
    REQUIRED['lcu: ' + _f] = 10

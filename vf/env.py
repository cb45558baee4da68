"""Puts the code under test in a controlled environment and imports it."""
import os
import sys

REPO = os.environ.get('VF_REPO', '/repo')
HASH_NAMES = {
    'binentries': 'hashes.binentries.txt', 'binhashes': 'hashes.binhashes.txt',
    'binfields': 'hashes.binfields.txt', 'bintypes': 'hashes.bintypes.txt',
    'game': 'hashes.game.txt', 'lcu': 'hashes.lcu.txt',
    'rst_xxh64': 'hashes.rst.xxh64.txt', 'rst_xxh3': 'hashes.rst.xxh3.txt',
}
hash_dir = None


def setup(root):
    """Point the package's hash directory below `root`, then import it from the working tree"""
    global hash_dir
    hash_dir = os.path.join(root, 'hashdir')
    os.makedirs(hash_dir, exist_ok=True)
    for var in ('CDRAGON_DATA', 'XDG_DATA_HOME', 'LOCALAPPDATA', 'CDTB_STORAGE', 'CDTB_EXPORT'):
        os.environ.pop(var, None)
    os.environ['CDTB_HASHES_DIR'] = hash_dir
    os.environ['HOME'] = root
    sys.dont_write_bytecode = True
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    for name in HASH_NAMES.values():
        p = os.path.join(hash_dir, name)
        if not os.path.exists(p):
            open(p, 'w').close()
    if 'cdtb' in sys.modules:
        # forked after import: re-point the hash lists
        retarget()
        return
    import cdtb
    assert os.path.realpath(cdtb.__file__).startswith(os.path.realpath(REPO) + os.sep), cdtb.__file__
    import cdtb.__main__  # noqa
    import cdtb.tftdata, cdtb.arenadata  # noqa
    import logging
    logging.getLogger('cdtb').setLevel(logging.CRITICAL)
    logging.disable(logging.CRITICAL)
    import hachoir.core
    retarget()


def hashfile(kind):
    import cdtb.hashes, cdtb.binfile, cdtb.rstfile
    return {
        'binentries': cdtb.binfile.hashfile_binentries, 'binhashes': cdtb.binfile.hashfile_binhashes,
        'binfields': cdtb.binfile.hashfile_binfields, 'bintypes': cdtb.binfile.hashfile_bintypes,
        'game': cdtb.hashes.hashfile_game, 'lcu': cdtb.hashes.hashfile_lcu,
        'rst_xxh64': cdtb.rstfile.hashfile_rst_xxh64, 'rst_xxh3': cdtb.rstfile.hashfile_rst_xxh3,
    }[kind]


def retarget():
    import pathlib
    import cdtb.hashes, cdtb.__main__
    d = pathlib.Path(hash_dir)
    cdtb.hashes.default_hash_dir = d
    cdtb.__main__.default_hash_dir = d
    for kind, name in HASH_NAMES.items():
        hf = hashfile(kind)
        hf.filename = d / name
        hf.hashes = None


WIDTH = {'binentries': 8, 'binhashes': 8, 'binfields': 8, 'bintypes': 8, 'game': 16, 'lcu': 16, 'rst_xxh64': 16, 'rst_xxh3': 16}


def set_hashes(kind, mapping):
    """Write a hash list the way it is published, and have it (re)loaded"""
    w = WIDTH[kind]
    with open(os.path.join(hash_dir, HASH_NAMES[kind]), 'w', encoding='utf-8', newline='') as f:
        for h, s in sorted(mapping.items(), key=lambda kv: kv[1]):
            f.write(f"{h:0{w}x} {s}\n")
    return hashfile(kind).load(force=True)

"""Independent writers of the game data and string tables TFT and Arena data are made of"""
from . import binw, rstw
from .binw import fnv, f32
from .wadw import path_hash

NULL_STRUCT = ('STRUCT', 0, [])
MAP22 = 'data/maps/shipping/map22/map22.bin'
MAP30 = 'data/maps/shipping/map30/map30.bin'
LANGS = ['en_us', 'fr_fr', 'ko_kr', 'zh_cn', 'de_de', 'es_mx']
WORDS = ['Ahri', 'Void', 'Blademaster', 'Sword', 'Bow', 'Rod', 'Yordle', 'Xerath', 'Demon', 'Elise', 'Chalice', 'Tear']


def S(s):
    return ('STRING', s)


def N(rng, n, kinds=('U32', 'S32')):
    return (rng.choice(kinds), n)


def FL(x):
    return ('FLOAT', f32(x))


def LINKS(rng, hs):
    return (rng.choice(['LIST']), 'LINK', [('LINK', h) for h in hs])


class Fields:
    """Fields of an object; case of the names does not matter"""

    def __init__(self):
        self.l = []

    def add(self, name, node):
        self.l.append((name if isinstance(name, int) else fnv(name), node))

    def done(self, rng):
        for _ in range(rng.choice([0, 0, 1, 2])):
            h = rng.getrandbits(32)
            self.l.append((h, rng.choice([('U8', 3), S('other'), FL(1)])))
        rng.shuffle(self.l)
        return self.l


def rnum(rng):
    return f32(rng.choice([0, 1, -1, .5, 100, 33.3, 2.75, rng.uniform(-500, 1500)]))


class Common:
    named = True        # some hashes are in the hash lists

    def __init__(self, rng, age, twist=None):
        """twist: source of a few differences to the same data without it"""
        self.rng, self.age, self.twist = rng, age, twist
        self.nodes = {}         # {file content: BIN entries}
        self.game_names, self.binhash_names = {}, {}
        self.unnamed = set()
        self.keys = set()       # texts that may be translated
        self.others = set()     # texts that are never translated
        self.uniq = 0

    def name(self, prefix=''):
        self.uniq += 1
        return f"{prefix}{self.rng.choice(WORDS)}{self.uniq}"

    def table_keys(self):
        """Keys of string tables: also ones of the texts that are not translated"""
        others = sorted(self.others - self.keys)
        return self.keys | set(self.rng.sample(others, min(len(others), self.rng.choice([0, 1, 5]))))

    def text(self, prefix):
        """A key (or already a text); None if there is none"""
        r = self.rng
        if self.keys and r.random() < .1:
            return r.choice(sorted(self.keys))      # shared by several objects
        self.uniq += 1
        t = r.choice([f"{prefix}_{self.uniq}", f"generatedtip_{prefix}_{self.uniq}_Name", f"Plain Text {self.uniq}", f"TFT_{prefix}_{self.uniq}@x@"])
        self.keys.add(t)
        return t

    def icon(self):
        """(node, text of it)"""
        r = self.rng
        self.others.add(p := f"ASSETS/Maps/Icons/{self.name()}.{r.choice(['tex', 'dds', 'TFT_Set3.dds', 'png', 'tga'])}")
        if self.age >= 1023 and r.random() < .3:
            h = path_hash(p)
            if r.random() < .6 and self.named:
                self.game_names[h] = p.lower()
                return ('PATH', h), p.lower()
            return ('PATH', h), f"{{{h:016x}}}"
        return S(p), p

    def hash(self, name):
        """(node, text) of a hashed name"""
        h = fnv(name)
        if h not in self.unnamed and self.rng.random() < .6 and self.named:
            self.binhash_names[h] = name
        if h in self.binhash_names:
            return ('HASH', h), name
        self.unnamed.add(h)
        return ('HASH', h), f"{{{h:08x}}}"

    def bin(self, entries):
        r = self.rng
        extra = [(r.getrandbits(32), fnv(r.choice(['Other', 'GameFont', 'ItemShop'])), [(fnv('mName'), S('noise'))]) for _ in range(r.choice([0, 1, 3]))]
        entries = entries + extra
        r.shuffle(entries)
        data = binw.enc_file(entries, age=self.age, version=r.choice([2, 3]), linked=[])
        self.nodes[data] = entries
        return data

    def num(self):
        x = rnum(self.rng)
        return f32(x + 1) if self.twist and self.twist.random() < .03 else x


class Tft(Common):
    """A state of TFT: files (below the game directory) and what is made of them"""

    def __init__(self, rng, age, old=None, size=None, twist=None, named=True):
        self.named = named
        super().__init__(rng, age, twist)
        r = rng
        self.old = age < 1000 and r.random() < .4 if old is None else old      # no sets at all
        self.files = {}
        self.entries = []
        self.stats = {}
        size = size or r.choice([1, 2, 3])
        self.gen_traits(2 * size + r.choice([0, 3]))
        self.gen_items(3 * size + r.choice([0, 4]))
        self.gen_roles()
        self.gen_champs(2 * size + r.choice([1, 4]))
        self.gen_sets()
        self.files[MAP22] = self.bin(self.entries)

    def effects(self, f, taken=None):
        """Adds effects to fields, gives what they say"""
        r = self.rng
        k = r.choice(['amounts', 'amounts', 'constants', 'none', 'null'])
        n = r.choice([0, 1, 2, 4])
        out, l, seen = {}, [], set()
        taken = taken or set()
        for _ in range(n):
            name = self.name('Eff')
            if taken and r.random() < .4:
                # the same effect as the traits' innate one, of another value
                name = r.choice(sorted(taken - seen) or [name])
                self.count('overridden', name in taken)
            seen.add(name)
            x = self.num() if r.random() < .93 else None
            if k == 'amounts':
                hashed = r.random() < .5
                node, text = self.hash(name) if hashed else (S(name), name)
                g = Fields(); g.add('name', node)
                if x is not None:
                    g.add('value', FL(x))
                l.append(('EMBEDDED', fnv('TftEffectAmount'), g.done(r)))
            else:
                node, text = self.hash(name) if r.random() < .8 else (S(name), name)
                l.append((node, ('STRUCT', fnv('GameModeConstantFloat'), [(fnv('mValue'), FL(x))] if x is not None else [])))
            out[text] = x
        if k == 'amounts':
            f.add('effectAmounts', ('LIST', 'EMBEDDED', l))
        elif k == 'constants':
            kt = 'HASH' if not l else l[0][0][0]
            keep = [(a, b) for a, b in l if a[0] == kt]
            texts = list(out)
            out = {t: out[t] for t, (a, _) in zip(texts, l) if a[0] == kt}
            g = Fields(); g.add(0xdf085b93, ('MAP', kt, 'STRUCT', keep))
            f.add('constants', (r.choice(['STRUCT', 'EMBEDDED']), fnv('GameModeConstants'), g.done(r)))
        else:
            if k == 'null':
                f.add('constants', r.choice([NULL_STRUCT, ('EMBEDDED', fnv('GameModeConstants'), [])]))
            return {}
        return out

    def gen_traits(self, n):
        r = self.rng
        self.traits = {}        # path hash -> data
        self.trait_names = {}   # path hash -> internal name, of templates too
        for i in range(n):
            h = r.getrandbits(32)
            template = r.random() < .15
            f = Fields()
            name = self.name('Set1_' + ('Template' if template else r.choice(['', '', '', '', 'Contemplate'])))
            self.others.add(name)
            d = {'apiName': name, 'name': self.text('trait'), 'desc': self.text('traitdesc')}
            node, d['icon'] = self.icon()
            f.add('mName', S(name)); f.add('mDisplayNameTra', S(d['name'])); f.add('mDescriptionNameTra', S(d['desc'])); f.add('mIconPath', node)
            base = {}
            if r.random() < .3:
                l = []
                for _ in range(r.choice([1, 2])):
                    g = Fields()
                    base.update(self.effects(g))
                    l.append(('EMBEDDED', fnv('TftTraitSetData'), g.done(r)))
                f.add('InnateTraitSets', ('LIST', 'EMBEDDED', l))
                self.count('innate')
            kind = r.choice(['mTraitSets', 'mConditionalTraitSets', 'mConditionalTraitSets', None])
            d['effects'] = []
            if kind:
                pre = 'm' if kind == 'mTraitSets' else ''
                l = []
                for _ in range(r.choice([0, 1, 3])):
                    g, e = Fields(), {}
                    e['minUnits'] = r.choice([1, 2, 3, 6])
                    g.add(pre + 'MinUnits', N(r, e['minUnits']))
                    k = r.choice(['some', 'none', 'zero', 'option'])
                    e['maxUnits'] = 25000
                    if k == 'some':
                        e['maxUnits'] = r.choice([3, 5, 9])
                        g.add(pre + 'MaxUnits', N(r, e['maxUnits']))
                    elif k == 'zero':
                        g.add(pre + 'MaxUnits', N(r, 0))
                    elif k == 'option':
                        e['maxUnits'] = r.choice([3, 5, 25000])
                        g.add(pre + 'MaxUnits', ('OPTION', 'U32', ('U32', e['maxUnits']) if e['maxUnits'] < 25000 else None))
                    e['style'] = 1
                    if r.random() < .7:
                        e['style'] = r.choice([1, 2, 3, 4])
                        g.add(pre + 'Style', N(r, e['style'], ('U8', 'U32')))
                    e['variables'] = {**base, **self.effects(g, {t for t in base if not t.startswith('{')})}
                    d['effects'].append(e)
                    l.append(('EMBEDDED', fnv('TftTraitSetData'), g.done(r)))
                f.add(kind, ('LIST', 'EMBEDDED', l))
            self.entries.append((h, fnv('TftTraitData'), f.done(r)))
            self.trait_names[h] = name
            if not template:
                self.traits[h] = d
            else:
                self.count('template_trait')

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def gen_items(self, n):
        r = self.rng
        ids = self.age < 1305 and r.random() < .9
        self.items, made = [], []
        hs = [r.getrandbits(32) for _ in range(n)]
        real = []
        for i, h in enumerate(hs):
            f, d = Fields(), {}
            k = r.random()
            name = 'TFT_Item_Null' if k < .05 and not any(x['apiName'] == 'TFT_Item_Null' for _, x, _ in made) else self.name('TFT_Item_' + ('Template' if k < .15 else 'Null' if k < .25 else 'contemplate' if k < .3 else '')) + ('_Null' if .2 < k < .23 else '')
            self.others.add(name)
            skip = 'Template' in name or name == 'TFT_Item_Null'
            d['apiName'] = name
            f.add('mName', S(name))
            d['id'] = None
            if ids:
                d['id'] = i
                f.add('mId', N(r, i))
            d['name'] = d['desc'] = None
            if r.random() < .95:
                d['name'] = self.text('item')
                f.add('mDisplayNameTra', S(d['name']))
            if r.random() < .95:
                d['desc'] = self.text('itemdesc')
                f.add('mDescriptionNameTra', S(d['desc']))
            node, d['icon'] = self.icon()
            f.add('mIconPath', node)
            for a, b in (('isAugment', 'IsAugment'), ('unique', 'mIsUnique')):
                d[a] = False
                if r.random() < .5:
                    d[a] = r.random() < .6
                    f.add(b, ('BOOL', d[a]))
            comp = r.sample(real, min(len(real), r.choice([0, 0, 1, 2]))) if real else []
            if comp and r.random() < .2:
                comp.append(comp[0])
            d['composition'] = [x['apiName'] for _, x in comp]
            d['from'] = [x['id'] for _, x in comp] if ids else None
            if comp or r.random() < .3:
                f.add('mComposition', LINKS(r, [h for h, _ in comp]))
            for a, b in (('associatedTraits', 'AssociatedTraits'), ('incompatibleTraits', 'IncompatibleTraits')):
                ts = r.sample(sorted(self.trait_names), min(len(self.trait_names), r.choice([0, 0, 1, 2])))
                d[a] = [self.trait_names[t] for t in ts]
                if ts or r.random() < .2:
                    f.add(b, LINKS(r, ts))
            d['effects'] = self.effects(f)
            tags = [self.hash(self.name('Tag')) if r.random() < .7 else (lambda x: (('HASH', x), f"{{{x:08x}}}"))(r.getrandbits(32)) for _ in range(r.choice([0, 0, 1, 2]))]
            d['tags'] = [t for _, t in tags]
            if tags:
                f.add('ItemTags', ('LIST', 'HASH', [t for t, _ in tags]))
            self.entries.append((h, fnv('TftItemData'), f.done(r)))
            made.append((h, d, skip))
            if not skip:
                real.append((h, d))
                self.items.append(d)
            else:
                self.count('template_item')
        self.item_paths = {h: d for h, d, _ in made}

    def gen_roles(self):
        r = self.rng
        self.roles = {}
        if self.age >= 1400:
            for _ in range(3):
                h = r.getrandbits(32)
                self.roles[h] = self.name('Role')
                self.others.add(self.roles[h])
                self.entries.append((h, fnv('TFTCharacterRoleData'), [(fnv('name'), S(self.roles[h]))]))

    def modifiable(self, f, old, new, x, default=None):
        """A statistic, in one of its layouts; gives what is exported"""
        r = self.rng
        k = r.choice(['old', 'new', 'none', 'both', 'old', 'new', 'both', 'empty'])
        if k == 'empty':
            f.add(new, (r.choice(['STRUCT', 'EMBEDDED']), fnv('GameModifiable'), Fields().done(r)))
            return default
        if k in ('old', 'both'):
            f.add(old, FL(x if k == 'old' else x + 1))
        if k in ('new', 'both'):
            g = Fields(); g.add('BaseValue', FL(x))
            f.add(new, (r.choice(['STRUCT', 'EMBEDDED']), fnv('GameModifiable'), g.done(r)))
        return default if k == 'none' else f32(x) if k != 'none' else None

    def contribution(self, t):
        g = [(fnv('TraitData'), ('LINK', t))] + ([(fnv('Amount'), ('U32', 1))] if self.rng.random() < .5 else []) + ([(fnv('Source'), ('LINK', self.rng.choice(sorted(self.trait_names) or [7])))] if self.rng.random() < .3 else [])
        self.rng.shuffle(g)
        return g

    def gen_champs(self, n):
        r = self.rng
        self.champs = {}        # character name -> data
        self.characters = {}    # path hash -> character name
        layout = r.choice(['cdtb', 'dirs', 'both'])
        for i in range(n):
            name = self.name(r.choice(['TFT_'] * 8 + ['TFT_Template', 'TFT5_template_']))
            self.others.add(name)
            h = r.getrandbits(32)
            while not h:
                h = r.getrandbits(32)
            listed = r.random() < .9
            if listed:
                self.entries.append((h, fnv(r.choice(['Character', 'TftCharacter'])), [(fnv('name'), S(r.choice([name, name.lower(), name.upper()])))]))
                self.characters[h] = name.lower()
            k = r.random()
            if k < .1:
                self.count('no_shop')
                continue
            shop = Fields()
            template = k < .15 and not self.stats.get('template_champ')
            if template:
                name = r.choice(['TFT_Template', 'tft_template'])
                self.count('template_champ')
            d = {'apiName': name, 'name': self.text('champ')}
            shop.add('mName', S(name)); shop.add('mDisplayNameTra', S(d['name']))
            rec, others = Fields(), []
            # icons
            k = r.choice(['new', 'old', 'both'])
            node, new = self.icon()
            old = self.name('ASSETS/Old') + '.dds'
            if k != 'old':
                shop.add('PcSplashPath', node)
            if k != 'new':
                shop.add('mIconPath', S(old))
            if k == 'old' and r.random() < .3:
                shop.add('PcSplashPath', S(''))
            d['icon'] = old if k == 'old' else new
            for a, b in (('tileIcon', 'TeamPlannerPortraitPath'), ('squareIcon', 'SquareSplashPath')):
                node, d[a] = self.icon()
                if r.random() < .8:
                    shop.add(b, node)
                else:
                    d[a] = Ellipsis     # not specified
            d['characterName'] = name
            rec.add('mCharacterName', S(name))
            # cost
            k = r.choice(['tier', 'rarity', 'none', 'both'])
            d['cost'] = 1
            if k in ('tier', 'both'):
                d['cost'] = r.choice([0, 1, 2, 3, 4, 5, 6, 8])
                rec.add('tier', N(r, d['cost'], ('U8', 'U32')))
            if k in ('rarity', 'both'):
                q = r.choice([0, 1, 2, 3, 4, 5, 6])
                shop.add('mRarity', N(r, q, ('U8',)))
                if k == 'rarity':
                    d['cost'] = {0: 1, 1: 2, 2: 3, 3: 4, 4: 5, 5: 7, 6: 8}[q]
            # traits
            ts = r.sample(sorted(self.trait_names), min(len(self.trait_names), r.choice([0, 1, 2, 3])))
            links = ts + ([r.getrandbits(32)] if r.random() < .1 else [])
            if r.random() < .5:
                rec.add('mLinkedTraits', LINKS(r, links))
            else:
                rec.add('mLinkedTraits', ('LIST', 'EMBEDDED', [('EMBEDDED', fnv('TftTraitContributionData'), self.contribution(t)) for t in links]))
            d['traits'] = [self.traits[t]['name'] for t in ts if t in self.traits]
            d['role'] = None
            if self.roles and r.random() < .7:
                q = r.choice(sorted(self.roles))
                rec.add('CharacterRole', ('LINK', q))
                d['role'] = self.roles[q]
            # statistics
            st = {}
            st['hp'] = self.modifiable(rec, 'baseHP', 'baseHPModifiable', r.choice([450, 500.5, 1000]))
            st['damage'] = self.modifiable(rec, 'BaseDamage', 'baseDamageModifiable', self.num())
            st['armor'] = self.modifiable(rec, 'baseArmor', 'baseArmorModifiable', self.num())
            st['magicResist'] = self.modifiable(rec, 'baseSpellBlock', 'baseMR', self.num())
            st['attackSpeed'] = self.modifiable(rec, 'attackSpeed', 'attackSpeedModifiable', .75)
            x = self.modifiable(rec, 'attackRange', 'attackRangeModifiable', r.choice([125, 180, 420, 660, 750, 1200]), 0)
            st['range'] = int(x / 180)
            for a, b, default in (('initialMana', 'mInitialMana', 0), ('critMultiplier', 'critDamageMultiplier', None), ('critChance', 'baseCritChance', None)):
                st[a] = default
                if r.random() < .7:
                    st[a] = self.num()
                    rec.add(b, FL(st[a]))
            k = r.choice(['none', 'empty', 'arBase', 'struct', 'struct_empty'])
            st['mana'] = 100
            if k != 'none':
                g = Fields()
                if k == 'arBase' or k.startswith('struct') and r.random() < .3:
                    x = r.choice([0, 50, 60.5, 175])
                    g.add('arBase', FL(x))
                    if k == 'arBase':
                        st['mana'] = x
                if k == 'struct':
                    st['mana'] = r.choice([0, 30, 40, 90])
                    g.add(0x726ee5cd, ('EMBEDDED', fnv('GameModifiable'), [(fnv('BaseValue'), FL(st['mana']))]))
                elif k == 'struct_empty':
                    g.add(0x726ee5cd, ('EMBEDDED', fnv('GameModifiable'), []))
                rec.add('primaryAbilityResource', (r.choice(['EMBEDDED', 'STRUCT']), fnv('AbilityResourceSlotInfo'), g.done(r)))
            d['stats'] = st
            # ability
            ab = {'name': None, 'desc': None, 'variables': []}
            if r.random() < .5:
                ab['name'] = self.text('ability'); shop.add('mAbilityNameTra', S(ab['name']))
            elif r.random() < .2:
                ab['name'] = ''; shop.add('mAbilityNameTra', S(''))
            if r.random() < .5:
                ab['desc'] = self.text('abilitydesc'); shop.add('mDescriptionTra', S(ab['desc']))
            elif r.random() < .2:
                ab['desc'] = ''; shop.add('mDescriptionTra', S(''))
            k = r.choice(['new', 'old', 'both'])
            node, new = self.icon()
            old = self.name('ASSETS/OldSpell') + '.dds'
            if k != 'old':
                shop.add('AbilityIconPath', node)
            if k != 'new':
                shop.add('mPortraitIconPath', S(old))
            ab['icon'] = old if k == 'old' else new
            spell, sname = r.getrandbits(32) or 1, self.name('Spell')
            decoys = [(r.getrandbits(32) or 1, self.name('Spell')) for _ in range(r.choice([0, 1, 2]))]
            exists = r.random() < .9
            if r.random() < .5:
                first = [0] if r.random() < .2 else []
                rec.add('spells', LINKS(r, first + [spell] + [x for x, _ in decoys]))
            else:
                pre = r.choice(['', f"{name}/", 'Characters/X/Spells/'])
                rec.add('spellNames', ('LIST', 'STRING', [S(pre + r.choice([sname, sname.upper()]))] + [S(pre + x) for _, x in decoys]))
            for h2, sn in [(spell, sname)] * exists + decoys:
                g, vs = Fields(), []
                pre = r.random() < .5
                for _ in range(r.choice([0, 1, 3])):
                    vn, xs = self.name('Var'), [self.num() for _ in range(r.choice([1, 4, 7]))]
                    q = Fields()
                    q.add('mName' if pre else 'name', S(vn)); q.add('mValues' if pre else 'values', ('LIST', 'FLOAT', [('FLOAT', x) for x in xs]))
                    vs.append((vn, xs, ('EMBEDDED', fnv('SpellDataValue'), q.done(r))))
                if vs or r.random() < .3:
                    g.add('mDataValues' if pre else 'DataValues', ('LIST', 'EMBEDDED', [x for _, _, x in vs]))
                loc = {}
                k = r.choice(['none', 'client', 'tooltip', 'keys', 'keys'])
                if k != 'none':
                    tip = []
                    if k == 'keys':
                        for a in ('keyName', 'keyTooltip', 'keyCost'):
                            if r.random() < .8:
                                loc[a] = self.text('spell')
                        tip = [(fnv('mLocKeys'), ('MAP', 'STRING', 'STRING', [(S(a), S(b)) for a, b in loc.items()]))]
                    cd = [(fnv('mTooltipData'), ('STRUCT', fnv('TooltipInstanceSpell'), tip))] if k != 'client' else []
                    g.add('mClientData', ('EMBEDDED', fnv('SpellDataResourceClient'), cd))
                if h2 == spell:
                    ab['variables'] = [{'name': a, 'value': b} for a, b, _ in vs]
                    ab['name'] = ab['name'] or loc.get('keyName')
                    ab['desc'] = ab['desc'] or loc.get('keyTooltip')
                others.append((h2, fnv('SpellObject'), [(fnv('mScriptName'), S(sn)), (fnv('mSpell'), ('STRUCT', fnv('SpellDataResource'), g.done(r)))]))
            ab['name'], ab['desc'] = ab['name'] or None, ab['desc'] or None
            d['ability'] = ab
            self.entries.append((r.getrandbits(32), fnv('TftShopData'), shop.done(r)))
            k = r.random()
            if k < .08:
                self.count('no_file')
                continue
            if k < .13:
                data = self.bin(others)      # no record
                self.count('no_record')
            else:
                data = self.bin([(r.getrandbits(32), fnv('TFTCharacterRecord'), rec.done(r))] + others)
                if not template:
                    self.champs[name.lower()] = d
            low = name.lower()
            where = layout if layout != 'both' else r.choice(['cdtb', 'dirs'])
            self.files[f"characters/{low}" if where == 'cdtb' else f"data/characters/{low}/{low}.bin"] = data
            if where == 'cdtb' and r.random() < .2:
                # files of the older layout are not the ones in use
                self.files[f"data/characters/{low}/{low}.bin"] = self.bin(r.choice([[], [(r.getrandbits(32), fnv('TFTCharacterRecord'), [(fnv('mCharacterName'), S('TFT_Other'))])]]))
                self.count('older_file')

    def among(self, l, more):
        l = l + more
        self.rng.shuffle(l)
        return l

    def gen_sets(self):
        r = self.rng
        chars, traits = sorted(self.characters), sorted(self.trait_names)
        clists, tlists = {}, {}

        def make_clist(hs):
            h = r.getrandbits(32)
            clists[h] = hs
            self.entries.append((h, fnv(r.choice(['MapCharacterList', 'TftCharacterList'])), [(fnv('Characters'), LINKS(r, hs))]))
            return h

        def make_tlist(hs):
            h = r.getrandbits(32)
            tlists[h] = hs
            self.entries.append((h, fnv('TftTraitList'), [(fnv('mTraits'), LINKS(r, hs))]))
            return h
        self.sets = []
        if self.old:
            # the longest lists are the set
            unknown = [r.getrandbits(32) for _ in range(r.choice([0, 1]))]
            a, b = chars + unknown, traits + [r.getrandbits(32) for _ in range(r.choice([0, 1]))]
            r.shuffle(a)
            r.shuffle(b)
            make_clist(a)
            make_tlist(b)
            for make, l in ((make_clist, a), (make_tlist, b)):
                if len(l) > 1 and r.random() < .6:
                    make(r.sample(l, r.randrange(len(l))))
            self.sets = [{'number': 1, 'mutator': None, 'name': 'Base', 'champions': [self.characters[c] for c in a if c in self.characters], 'traits': [t for t in b if t in self.traits], 'items': [], 'augments': []}]
            self.count('old')
            return
        ilists = {}
        for _ in range(r.choice([1, 2, 3])):
            h = r.getrandbits(32)
            hs = r.sample(sorted(self.item_paths), r.randrange(len(self.item_paths) + 1)) + [r.getrandbits(32) for _ in range(r.choice([0, 0, 1]))]
            r.shuffle(hs)
            ilists[h] = hs
            self.entries.append((h, fnv('TFTItemList'), [(fnv('mItems'), LINKS(r, hs))] if hs or r.random() < .5 else []))
        for i in range(r.choice([1, 1, 2, 3])):
            f, d = Fields(), {}
            d['number'] = r.choice([0, 1, 2, i + 3])
            f.add('number', N(r, d['number']))
            k = r.choice(['Mutator', 'name', 'both'])
            d['mutator'] = self.name('TFTSet')
            self.others.add(d['mutator'])
            if k != 'name':
                f.add('Mutator', S(d['mutator']))
            if k != 'Mutator':
                f.add('name', S(d['mutator'] if k == 'name' else self.name('x')))
            d['name'] = self.name('Set ')
            self.others.add(d['name'])
            part = r.sample(chars, r.randrange(len(chars) + 1))
            cut = r.randrange(len(part) + 1)
            groups = [part[:cut], part[cut:]] if r.random() < .5 else [part]
            ls = [make_clist(g) for g in groups]
            dangling = [r.getrandbits(32)] if r.random() < .3 else []
            k = r.choice(['old', 'new', 'both'])
            if k == 'both':
                f.add('characterLists', LINKS(r, ls[:1])); f.add('tftCharacterLists', LINKS(r, self.among(ls[1:], dangling)))
            else:
                f.add('characterLists' if k == 'old' else 'tftCharacterLists', LINKS(r, self.among(ls, dangling)))
            d['champions'] = [self.characters[c] for c in part]
            ts = r.sample(traits, r.randrange(len(traits) + 1))
            # a trait may be in several lists
            tl = [make_tlist(ts)] + ([make_tlist(r.sample(ts, r.randrange(len(ts) + 1)))] if r.random() < .4 else [])
            d['traits'] = [t for t in ts if t in self.traits]
            il = r.sample(sorted(ilists), r.randrange(len(ilists) + 1))
            if il or r.random() < .5:
                f.add('ItemLists', LINKS(r, self.among(il, dangling)))
            its = {h for x in il for h in ilists[x] if h in self.item_paths}
            d['items'] = sorted(self.item_paths[h]['apiName'] for h in its if not self.item_paths[h]['isAugment'])
            d['augments'] = sorted(self.item_paths[h]['apiName'] for h in its if self.item_paths[h]['isAugment'])
            script = [(S('SetName'), ('STRUCT', fnv('ScriptDataString'), [(fnv('mValue'), S(d['name']))])), (S('Other'), ('STRUCT', fnv('ScriptDataFloat'), [(fnv('mValue'), FL(3))]))]
            r.shuffle(script)
            # sets without characters, traits or name are not sets
            lack = r.choice([None] * 6 + ['script', 'name', 'traits', 'chars', 'number', 'value'])
            if lack == 'chars':
                f.l = [x for x in f.l if x[0] not in (fnv('characterLists'), fnv('tftCharacterLists'))]
                if r.random() < .5:
                    f.add('characterLists', LINKS(r, []))
            if lack != 'traits':
                f.add('TraitLists', LINKS(r, self.among(tl, dangling)))
            if lack == 'number':
                f.l = [x for x in f.l if x[0] != fnv('number')]
            if lack == 'value':
                script = [(k, v if k != S('SetName') else ('STRUCT', v[1], [])) for k, v in script]
            if lack == 'name':
                script = [x for x in script if x[0] != S('SetName')]
            if lack != 'script':
                f.add('ScriptData', ('MAP', 'STRING', 'STRUCT', script))
            if lack is None:
                self.sets.append(d)
            else:
                self.count('lack_' + lack)
            self.entries.append((r.getrandbits(32), fnv('TFTSetData'), f.done(r)))

    def expected(self, tr):
        """What is exported; tr translates a text"""
        def trd(d):
            d = dict(d)
            for k in ('name', 'desc'):
                if k in d:
                    d[k] = tr(d[k])
            return d
        champs = {}
        for c, d in self.champs.items():
            d = trd(d)
            d['traits'] = [tr(t) for t in d['traits']]
            d['ability'] = trd(d['ability'])
            champs[c] = d
        data = [{**s, 'traits': [trd(self.traits[t]) for t in s['traits']], 'champions': [champs[c] for c in s['champions'] if c in champs]} for s in self.sets]
        return {'items': [trd(i) for i in self.items], 'setData': data}


def same(a, b, where=''):
    """First difference between JSON and expected values, or None"""
    if b is Ellipsis:
        return None
    if isinstance(b, dict):
        if not isinstance(a, dict):
            return f"{where}: {type(a).__name__}"
        if set(a) != set(b):
            return f"{where}: keys {sorted(set(a) ^ set(b))[:5]} differ"
        return next((d for k in b if (d := same(a[k], b[k], f"{where}.{k}"))), None)
    if isinstance(b, list):
        if not isinstance(a, list) or len(a) != len(b):
            return f"{where}: {str(a)[:200]} instead of {str(b)[:200]}"
        return next((d for i, (x, y) in enumerate(zip(a, b)) if (d := same(x, y, f"{where}[{i}]"))), None)
    if isinstance(a, bool) != isinstance(b, bool) or a != b or isinstance(a, str) != isinstance(b, str):
        return f"{where}: {a!r} instead of {b!r}"
    return None


def _unordered(l, key='apiName'):
    return sorted(l, key=lambda x: str(x.get(key)))


def dedupe(l):
    out, seen = [], set()
    for x in l:
        if x['apiName'] not in seen:
            seen.add(x['apiName'])
            out.append(x)
    return out


def same_tft(got, want):
    if not isinstance(got, dict) or set(got) != {'items', 'sets', 'setData'}:
        return f"keys {sorted(got)}"
    norm = lambda s: {**s, 'traits': _unordered(s['traits']), 'champions': _unordered(s['champions'])}
    if d := same(_unordered(got['items']), _unordered(want['items']), 'items'):
        return d
    a = sorted(map(norm, got['setData']), key=lambda s: str((s['mutator'], s['name'])))
    b = sorted(map(norm, want['setData']), key=lambda s: str((s['mutator'], s['name'])))
    if d := same(a, b, 'setData'):
        return d
    if set(got['sets']) != {str(s['number']) for s in b}:
        return f"sets: {sorted(got['sets'])} instead of {sorted({s['number'] for s in b})}"
    for n, s in got['sets'].items():
        ds = [same(norm(s), {k: x[k] for k in ('name', 'traits', 'champions')}, f"sets.{n}") for x in b if str(x['number']) == n]
        if all(ds):
            return ds[0]
    return None


class Arena(Common):
    def __init__(self, rng, age, n=None, twist=None, named=True):
        self.named = named
        super().__init__(rng, age, twist)
        r = rng
        self.stats = {}
        self.names = {}
        entries, self.augments = [], []
        spells = []     # of the augments
        for i in range(r.choice([0, 1, 3, 8]) if n is None else n):
            f, d = Fields(), {}
            d['id'] = d['apiName'] = d['name'] = d['desc'] = d['tooltip'] = None
            d['id'] = i + r.choice([0, 100])
            f.add('AugmentPlatformId', N(r, d['id']))
            d['apiName'] = self.name('Augment')
            self.others.add(d['apiName'])
            f.add('AugmentNameId', S(d['apiName']))
            for a, b in (('name', 'NameTra'), ('desc', 'DescriptionTra'), ('tooltip', 'AugmentTooltipTra')):
                if r.random() < .9:
                    d[a] = self.text('augment' + a)
                    f.add(b, S(d[a]))
            for a, b in (('iconSmall', 'AugmentSmallIconPath'), ('iconLarge', 'AugmentLargeIconPath')):
                node, text = self.icon()
                f.add(b, node)
                text = text.lower()
                d[a] = text[:-4] + '.png' if text[-4:] in ('.dds', '.tex', '.tga') else text
            d['rarity'] = 0
            if r.random() < .7:
                d['rarity'] = r.choice([0, 1, 2, 4])
                f.add('rarity', N(r, d['rarity'], ('U8', 'U32')))
            enabled = True
            if r.random() < .5:
                enabled = r.random() < .5
                f.add('enabled', ('BOOL', enabled))
            d['dataValues'], d['calculations'] = {}, {}
            k = r.choice(['none', 'null', 'dangling', 'spell', 'spell', 'spell', 'spell', 'shared'])
            if k == 'shared' and not spells:
                k = 'none'
            if k == 'shared':
                h, d['dataValues'], d['calculations'] = r.choice(spells)
                f.add('RootSpell', ('LINK', h))
            elif k != 'none':
                h = 0 if k == 'null' else r.getrandbits(32)
                f.add('RootSpell', ('LINK', h))
                if k == 'spell':
                    g, vs = Fields(), []
                    pre = r.random() < .5
                    for _ in range(r.choice([0, 1, 3])):
                        vn, xs = self.name('Var'), [self.num() for _ in range(r.choice([1, 4, 7]))]
                        q = Fields()
                        q.add('mName' if pre else 'name', S(vn))
                        if not pre or r.random() < .9:
                            q.add('mValues' if pre else 'values', ('LIST', 'FLOAT', [('FLOAT', x) for x in xs]))
                        else:
                            xs = [0]
                        d['dataValues'][vn] = xs[0] if pre else Values(xs)
                        vs.append(('EMBEDDED', fnv('SpellDataValue'), q.done(r)))
                    if vs or r.random() < .3:
                        g.add('mDataValues' if pre else 'DataValues', ('LIST', 'EMBEDDED', vs))
                    if r.random() < .6:
                        gen = binw.Gen(r, age, {}, maxdepth=2, wide=15)
                        gen.types = [t for t in gen.types if t not in ('PATH', 'MATRIX4X4')]
                        items = []
                        for _ in range(r.choice([0, 1, 2])):
                            name = self.name('Calc')
                            key, text = self.hash(name)
                            node = ('STRUCT', r.getrandbits(32) | 1, gen.fields(1))
                            items.append((key, node))
                        calc = ('MAP', 'HASH', 'STRUCT', items)
                        g.add('mSpellCalculations', calc)
                        d['calculations'] = calc
                        self.count('calculations', len(items))
                    spells.append((h, d['dataValues'], d['calculations']))
                    entries.append((h, fnv('SpellObject'), [(fnv('mSpell'), ('STRUCT', fnv('SpellDataResource'), g.done(r)))]))
            self.count('root_' + k)
            entries.append((r.getrandbits(32), fnv('AugmentData'), f.done(r)))
            if enabled:
                self.augments.append(d)
            else:
                self.count('disabled')
        self.files = {MAP30: self.bin(entries)}

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def expected(self, tr):
        import json
        names = binw.Names({'binhashes': self.binhash_names, 'game': self.game_names})
        out = []
        for d in self.augments:
            d = {k: tr(x) if k in ('name', 'desc', 'tooltip') else x for k, x in d.items()}
            if isinstance(d['calculations'], tuple):
                d['calculations'] = json.loads(json.dumps(names.value(d['calculations'])))
            out.append(d)
        return {'augments': out}


class Values(list):
    """The values of a data value: exported as such, or as the first of them"""


def same_arena(got, want):
    if not isinstance(got, dict) or set(got) != {'augments'}:
        return f"keys {sorted(got)}"
    a, b = _unordered(got['augments']), _unordered(want['augments'])
    if [x.get('apiName') for x in a] != [x['apiName'] for x in b]:
        return f"augments {[x.get('apiName') for x in a]} instead of {[x['apiName'] for x in b]}"
    for x, y in zip(a, b):
        w = y['apiName']
        if set(x) != set(y):
            return f"{w}: keys {sorted(set(x) ^ set(y))}"
        if d := same({k: v for k, v in x.items() if k not in ('calculations', 'dataValues')}, {k: v for k, v in y.items() if k not in ('calculations', 'dataValues')}, w):
            return d
        if d := binw.same_json(x['calculations'], y['calculations'], f"{w}.calculations"):
            return d
        if set(x['dataValues']) != set(y['dataValues']):
            return f"{w}: data values {sorted(x['dataValues'])} instead of {sorted(y['dataValues'])}"
        for k, v in y['dataValues'].items():
            g = x['dataValues'][k]
            if not (g == v or isinstance(v, Values) and g == v[0]):
                return f"{w}: data value {k} is {g} instead of {v}"
    return None


STYLES = ['text', 'fontconfig', 'main', 'lang_main', 'lang_game']


class Files(dict):
    def __init__(self):
        super().__init__()
        self.texts = {}     # of string tables that can be converted


def tables(rng, age, style, game, keys, langs):
    """String tables: ({path: data}, {language: function that translates a text})"""
    files, trs = Files(), {}
    keys = sorted(k for k in keys if k is not None)
    for lang in langs:
        texts = {}
        for k in keys:
            x = rng.random()
            if x < .6:
                texts[k] = f"{k} in {lang} é {rng.randrange(1000)}"
            elif x < .7:
                texts[k] = rng.choice(keys)     # a text that is itself a key
            elif x < .75:
                texts[k] = rng.choice(['', 'a = b "c"', '<br>\\n %i:x%', '{0}'])
        for i in range(rng.choice([0, 3])):
            texts[f"unrelated_{i}"] = 'unrelated'
        if style == 'text':
            lines = ['[FontConfig "x"]', 'fontlib "fonts_latin.swf"', '', 'map "$x" = "y"']
            if rng.random() < .3:
                lines = lines[:rng.randrange(4)]
            tl = [f'tr "{k}" = "{v}"' for k, v in texts.items()]
            rng.shuffle(tl)
            end = rng.choice(['\n', '\n', '\r\n'])
            text = end.join(lines + tl) + (end if rng.random() < .7 else '')
            files[f"data/menu/fontconfig_{lang}.txt"] = text.encode()
            trs[lang] = (lambda t: lambda s: t.get(s, s))(texts)
            continue
        # texts are found in any letter case
        low = {}
        for k, v in texts.items():
            low.setdefault(k.lower(), v)
        data = rstw.write(rng, [(rstw.key_hash(k, age), v.encode(), False) for k, v in low.items()], rng.choice([2, 3, 4, 5]), age)
        p = {'fontconfig': f"data/menu/fontconfig_{lang}.txt", 'main': f"data/menu/main_{lang}.stringtable", 'lang_main': f"{lang}/data/menu/en_us/main.stringtable", 'lang_game': f"{lang}/data/menu/en_us/{game}.stringtable"}[style]
        files[p] = data
        files.texts[p] = low
        trs[lang] = (lambda t: lambda s: s if s is None else t.get(s.lower(), s))(low)
    return files, trs

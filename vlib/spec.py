"""
Abstract dictionary ("spec", plain JSON data) and its rendering to .aff/.dic files.

spec = {
  'opt':   {'KEY': 'abc', 'TRY': ..., 'LANG': ..., 'COMPOUNDMIN': 2, 'CHECKSHARPS': True, ...},   plain settings
  'fl':    {'NEEDAFFIX': 'x', ...},                                    settings that name a flag
  'pfx':   [[flag, cross, [[strip, add, [flags], cond], ...]], ...],   cond: '' means the field is left out
  'sfx':   same
  'rep': [[from, to]], 'map': [[member, ...]], 'break': [pattern] or None, 'iconv'/'oconv': [[from, to]],
  'crule': [[[flag, quantifier], ...], ...], 'cpat': [[lchars, lflag, rchars, rflag]],
  'phone': [[rule, replacement]],
  'words': [[stem, [flags], [[tag, value], ...]], ...],
}

Flags are abstract one-letter names, rendered through ``flagmap`` in the chosen notation.
"""

import os
import zipfile

FLAG_DIRECTIVES = [
    'NOSUGGEST', 'KEEPCASE', 'CIRCUMFIX', 'NEEDAFFIX', 'FORBIDDENWORD', 'COMPOUNDFLAG', 'COMPOUNDBEGIN',
    'COMPOUNDMIDDLE', 'COMPOUNDEND', 'ONLYINCOMPOUND', 'COMPOUNDPERMITFLAG', 'COMPOUNDFORBIDFLAG', 'FORCEUCASE',
]
BOOL_DIRECTIVES = [
    'COMPLEXPREFIXES', 'FULLSTRIP', 'NOSPLITSUGS', 'CHECKSHARPS', 'CHECKCOMPOUNDCASE', 'CHECKCOMPOUNDDUP',
    'CHECKCOMPOUNDREP', 'CHECKCOMPOUNDTRIPLE', 'SIMPLIFIEDTRIPLE', 'ONLYMAXDIFF',
]
INT_DIRECTIVES = ['MAXDIFF', 'MAXNGRAMSUGS', 'MAXCPDSUGS', 'COMPOUNDMIN', 'COMPOUNDWORDMAX']
STR_DIRECTIVES = ['KEY', 'TRY', 'WORDCHARS', 'LANG', 'IGNORE']

PLAIN = {}      # default style


def empty():
    return {'opt': {}, 'fl': {}, 'pfx': [], 'sfx': [], 'rep': [], 'map': [], 'break': None, 'iconv': [], 'oconv': [],
            'crule': [], 'cpat': [], 'phone': [], 'words': []}


def all_flags(spec):
    """All abstract flags of the spec, in order of appearance."""
    seen = {}
    for flag in spec['fl'].values():
        seen[flag] = 1
    for kind in ('pfx', 'sfx'):
        for flag, _, rows in spec[kind]:
            seen[flag] = 1
            for _, _, flags, _ in rows:
                seen.update(dict.fromkeys(flags))
    for rule in spec['crule']:
        seen.update(dict.fromkeys(flag for flag, _ in rule))
    for _, lflag, _, rflag in spec['cpat']:
        seen.update(dict.fromkeys(f for f in (lflag, rflag) if f))
    for _, flags, _ in spec['words']:
        seen.update(dict.fromkeys(flags))
    return list(seen)


class Render:
    """Turns spec into text in the given style."""

    def __init__(self, spec, style=None):
        self.spec = spec
        self.style = style or {}
        self.fmt = self.style.get('flag', 'short')
        self.map = self.style.get('flagmap') or {}
        # rows of flag sets and of tag lists, some of them unused
        self.af = [['A'] * (idx + 1) for idx in range(self.style.get('af_pad', 0))] if self.style.get('af') else []
        self.am = [[f'zz:{idx}'] for idx in range(self.style.get('am_pad', 0))] if self.style.get('am') else []

    def one(self, flag):
        return self.map.get(flag, flag)

    def many(self, flags):
        names = [self.one(f) for f in flags]
        return (',' if self.fmt == 'num' else '').join(names)

    def flagset(self, flags):
        """Flags as written after a slash (alias number when aliases are on)."""
        if not flags:
            return ''
        if not self.style.get('af'):
            return self.many(flags)
        key = list(flags)
        if key not in self.af:
            self.af.append(key)
        return str(self.af.index(key) + 1)

    def affixes(self):
        out = []
        order = [('PFX', grp) for grp in self.spec['pfx']] + [('SFX', grp) for grp in self.spec['sfx']]
        perm = self.style.get('affix_order')
        if perm:
            order = [order[i] for i in perm if i < len(order)] + [g for i, g in enumerate(order) if i not in perm]
        for name, (flag, cross, rows) in order:
            out.append(f"{name} {self.one(flag)} {'Y' if cross else 'N'} {len(rows)}")
            for strip, add, flags, cond in rows:
                text = add or '0'
                fset = self.flagset(flags)
                if fset:
                    text = (add if add else self.style.get('zero', '0')) + '/' + fset
                out.append(f"{name} {self.one(flag)} {strip or '0'} {text} {cond}".rstrip())
        return out

    def word(self, entry):
        stem, flags, tags = entry
        text = stem if stem.startswith('/') else stem.replace('/', '\\/')
        fset = self.flagset(flags)
        if fset:
            text += '/' + fset
        if tags:
            if self.style.get('am'):
                if self.style.get('am_mixed') and len(tags) > 1:
                    text += f' {tags[0][0]}:{tags[0][1]}'
                    tags = tags[1:]
                key = [f'{tag}:{value}' for tag, value in tags]
                if key not in self.am:
                    self.am.append(key)
                text += '\t' + str(self.am.index(key) + 1)
            else:
                text += ''.join(f'{self.style.get("tagsep", " ")}{tag}:{value}' for tag, value in tags)
            text += self.style.get('junk', '')
        return text

    def crule(self, rule):
        parts = []
        for flag, quant in rule:
            name = self.one(flag)
            parts.append((f'({name})' if self.fmt in ('long', 'num') else name) + quant)
        return ''.join(parts)

    def texts(self):    # pylint: disable=too-many-branches
        spec, style = self.spec, self.style
        words = [self.word(entry) for entry in spec['words']]
        affixes = self.affixes()

        head = []
        enc = style.get('enc', 'UTF-8')
        if enc:
            head.append(f'SET {enc}')
        if self.fmt != 'short':
            head.append(f'FLAG {self.fmt}')
        if enc and self.fmt != 'short' and style.get('flag_first'):
            head.reverse()
        blocks = []
        for name, flag in spec['fl'].items():
            blocks.append([f'{style.get("synonyms", {}).get(name, name)} {self.one(flag)}'])
        for name, value in spec['opt'].items():
            if name == 'IGNORE':
                head.append(f'{name} {value}')
            elif value is True:
                blocks.append([name])
            elif value is not False and value is not None:
                blocks.append([f'{name} {value}'])
        if spec['break'] is not None:
            blocks.append([f"BREAK {len(spec['break'])}", *(f'BREAK {pat}' for pat in spec['break'])])
        for name, key in (('REP', 'rep'), ('ICONV', 'iconv'), ('OCONV', 'oconv'), ('PHONE', 'phone')):
            if spec[key]:
                blocks.append([f'{name} {len(spec[key])}', *(f'{name} {a} {b}' for a, b in spec[key])])
        if spec['map']:
            rows = [''.join(m if len(m) == 1 else f'({m})' for m in members) for members in spec['map']]
            blocks.append([f'MAP {len(rows)}', *(f'MAP {row}' for row in rows)])
        if spec['crule']:
            blocks.append([f"COMPOUNDRULE {len(spec['crule'])}",
                           *(f'COMPOUNDRULE {self.crule(rule)}' for rule in spec['crule'])])
        if spec['cpat']:
            rows = []
            for lchars, lflag, rchars, rflag in spec['cpat']:
                rows.append(f"{lchars}{'/' + self.one(lflag) if lflag else ''} "
                            f"{rchars}{'/' + self.one(rflag) if rflag else ''}")
            blocks.append([f'CHECKCOMPOUNDPATTERN {len(rows)}', *(f'CHECKCOMPOUNDPATTERN {row}' for row in rows)])
        if self.am:
            blocks.append([f'AM {len(self.am)}', *('AM ' + ' '.join(row) for row in self.am)])
        af_block = []
        if self.af:
            af_block = [f'AF {len(self.af)}', *(f'AF {self.many(row)}' for row in self.af)]
        perm = style.get('block_order')
        if perm:
            blocks = [blocks[i] for i in perm if i < len(blocks)] + [b for i, b in enumerate(blocks) if i not in perm]
        if style.get('affixes_early'):
            lines = [*head, *af_block, *affixes, *(ln for block in blocks for ln in block)]
        else:
            lines = [*head, *af_block, *(ln for block in blocks for ln in block), *affixes]

        count = style.get('count', 'right')
        dic = []
        if count == 'right':
            dic.append(str(len(words)))
        elif count == 'wrong':
            dic.append(str(len(words) * 3 + 7))
        elif count == 'padded':
            dic.append(f'{len(words)}   ')
        dic.extend(words)
        return lines, dic

    def bytes(self):
        """(aff bytes, dic bytes)"""
        style = self.style
        aff, dic = self.texts()
        enc = style.get('enc', 'UTF-8') or 'windows-1252'
        for pos, text in sorted(style.get('noise', []), key=lambda item: -item[0]):
            # unrelated lines go only after the SET/FLAG head, and never inside a table
            starts = _safe_points(aff)
            aff.insert(starts[pos % len(starts)], text)
        aff[:0] = style.get('preface', [])
        eol = style.get('eol', '\n')
        trail = style.get('trail', '')

        def pack(lines, bom):
            if style.get('blanks'):
                lines = [ln for idx, line in enumerate(lines)
                         for ln in ([line, ''] if idx % style['blanks'] == 0 else [line])]
            text = eol.join(ln + trail if ln else ln for ln in lines) + (eol if style.get('final_eol', True) else '')
            data = text.encode(enc, 'surrogateescape')
            return (b'\xef\xbb\xbf' if bom else b'') + data
        return pack(aff, style.get('bom_aff')), pack(dic, style.get('bom_dic'))


def _safe_points(lines):
    """Indexes where an unrelated line may be put: not between a table header and the end of its rows."""
    res = []
    idx = 0
    while idx <= len(lines):
        res.append(idx)
        if idx == len(lines):
            break
        parts = lines[idx].split()
        skip = 1
        if parts and parts[0] in ('BREAK', 'REP', 'ICONV', 'OCONV', 'PHONE', 'MAP', 'COMPOUNDRULE',
                                  'CHECKCOMPOUNDPATTERN', 'AM', 'AF'):
            skip += int(parts[1])
        elif parts and parts[0] in ('SFX', 'PFX'):
            skip += int(parts[3])
        idx += skip
    return res[1:] or [len(lines)]


def write(spec, folder, style=None, name='d'):
    aff, dic = Render(spec, style).bytes()
    base = os.path.join(folder, name)
    with open(base + '.aff', 'wb') as out:
        out.write(aff)
    with open(base + '.dic', 'wb') as out:
        out.write(dic)
    return base


def load(ctx, spec, style=None):
    """Renders the spec and loads it through the public API of the code under test."""
    from spylls.hunspell import Dictionary   # pylint: disable=import-outside-toplevel
    style = style or {}
    folder = ctx.fresh_dir()
    if style.get('folder'):
        folder = os.path.join(folder, style['folder'])
        os.mkdir(folder)
    base = write(spec, folder, style)
    container = style.get('container', 'files')
    if container == 'files':
        return ctx.sut('loading the dictionary', Dictionary.from_files, base)
    if container == 'zip':
        path = os.path.join(folder, 'd.zip')
        sub = style.get('zipdir', '')
        with zipfile.ZipFile(path, 'w', zipfile.ZIP_DEFLATED if style.get('deflate') else zipfile.ZIP_STORED) as arch:
            names = ['.aff', '.dic']
            if style.get('zip_swap'):
                names.reverse()
            arch.writestr(sub + 'README.txt', 'about')
            for ext in names:
                arch.write(base + ext, sub + 'd' + ext)
        return ctx.sut('loading the zip archive', Dictionary.from_zip, path)
    if container == 'system':
        for name in style.get('siblings', ()):
            write(dict(empty(), words=[['zz', [], []]]), folder, name=name)

        class Local(Dictionary):
            PATHES = [os.path.join(folder, 'missing'), folder]
        return ctx.sut('loading from the system folder', Local.from_system, 'd')
    raise ValueError(container)

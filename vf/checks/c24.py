"""C24 matcher that does not depend on reading order"""
import os

from vf import gen, judge, pipes, tei, truth
from vf.gen import El

RULE = (
    'header files annotated with --matcher complex: title, authors, affiliations, abstract and keywords over one to many lines, in any order in the '
    'document and in any other order in the target, between unrelated lines; some in other case or with other dashes, with target values that are not in '
    'the document, with affiliations of one part or far from each other, with --debug-match (names, keywords, unrelated lines and absent values each in an '
    'alphabet of their own, so that nothing is similar by chance); oracle: every letter and digit of a value has the label of its field, unrelated lines '
    'have the default label; non-trivial: at least two values'
)
PLAN = {'quick': 3000, 'thorough': 60000}
REQUIRED_EVENTS = {
    'piece:title': 600, 'piece:author': 500, 'piece:author_aff': 500, 'piece:abstract': 500, 'piece:keywords': 300, 'piece:None': 1500,
    'values': 8000, 'words': 20000, 'absent': 300, 'other-case': 100, 'other-dash': 100, 'far': 100, 'debug-match': 100, 'several-lines': 1000,
}
# alphabets: code points of the first small and the first capital letter
GREEK, ARMENIAN, GEORGIAN = (0x3b1, 0x391), (0x561, 0x531), (0x10d0, 0x10d0)
OTHER = truth.NOTE_OTHER


def written(alphabet, text):
    """the text, in the letters of another alphabet"""
    low, up = alphabet
    return ''.join(
        chr(low + (ord(c) - 97) % 24) if 'a' <= c <= 'z' else chr(up + (ord(c) - 65) % 24) if 'A' <= c <= 'Z' else c for c in text)


class Piece:
    """consecutive lines; values: texts in them that have to get the label of the
    field (what is between them is not judged)"""
    def __init__(self, field, text, values):
        self.field = field
        self.text = text
        self.values = values


def wrapped(rng, text):
    """the last line is not a single word"""
    for _ in range(20):
        lines = gen.wrap_lines(rng, text, 40, 90)
        if len(lines) == 1 or len(lines[-1]) >= 20:
            return lines
    return [text]


def hyphened(rng, text):
    words = text.split(' ')
    if rng.random() < 0.3:
        i = rng.randint(1, len(words) - 1)
        words[i - 1:i + 1] = ['-'.join(words[i - 1:i + 1])]
    return ' '.join(words)


def respelled(ctx, text):
    """as the document might show it"""
    roll = ctx.rng.random()
    if roll < 0.1:
        ctx.event('other-case')
        return text.upper()
    if roll < 0.6 and '-' in text:
        ctx.event('other-dash')
        return text.replace('-', '\u2013')
    return text


def unrelated(rng, v):
    return [Piece(None, judge.foreign(line.lower()), []) for line in truth.other_lines(rng, v)]


def header(rng, ctx):
    v = gen.Vocab(rng)
    jats = gen.Jats()
    groups = []
    meta = []
    contrib = El('contrib-group')
    if rng.random() < 0.9:
        t = hyphened(rng, v.phrase(rng.randint(3, 14)))
        shown = respelled(ctx, t)
        groups.append([Piece('title', shown, [shown])])
        meta.append(El('title-group', El('article-title', t)))
    if rng.random() < 0.8:
        names = [(written(GREEK, v.name()), written(GREEK, v.name())) for _ in range(rng.randint(1, 5))]
        for given, surname in names:
            contrib.children.append(El('contrib', El('name', El('surname', surname), El('given-names', given)), contrib_type='author'))
        groups.append([Piece('author', rng.choice([', ', '; ', ' and ']).join('%s %s' % n for n in names), [x for n in names for x in n])])
    if rng.random() < 0.8:
        affs = []
        for i in range(rng.randint(1, 4)):
            parts = truth.affiliation_parts(rng, v, label=truth.aff_label(rng, i))
            affs.append(Piece('author_aff', ''.join(t for _, t in parts), [t for k, t in parts if k and k != 'label']))
            contrib.children.append(truth.aff_element(parts))
        groups.append(affs)
    if rng.random() < 0.8:
        t = hyphened(rng, v.paragraph(rng.randint(1, 5)))
        meta.append(El('abstract', El('p', t)))
        shown = respelled(ctx, t)
        groups.append([Piece('abstract', shown, [shown])])
        if rng.random() < 0.5:
            groups[-1].insert(0, Piece(None, '\u0420\u0435\u0437\u044e\u043c\u0435', []))
    if rng.random() < 0.5:
        kwds = [written(GEORGIAN, v.phrase(rng.randint(1, 2), cap=False)) for _ in range(rng.randint(2, 5))]
        groups.append([Piece('keywords', ', '.join(kwds), kwds)])
        meta.append(El('kwd-group', *[El('kwd', k) for k in kwds]))
    if rng.random() < 0.3:
        ctx.event('absent')
        # not in the document
        meta.append(El('kwd-group', *[El('kwd', written(ARMENIAN, v.word())) for _ in range(2)]))
        contrib.children.append(El('contrib', El('name', El('surname', written(ARMENIAN, v.word())), El('given-names', written(ARMENIAN, v.word()))), contrib_type='author'))
    for _ in range(rng.choice([0, 1, 2, 4])):
        groups.append(unrelated(rng, v))
    if rng.random() < 0.1:
        ctx.event('far')
        groups.append([p for _ in range(rng.choice([10, 40])) for p in unrelated(rng, v)])
    meta.append(contrib)
    rng.shuffle(meta)
    jats.article_meta.extend(meta)
    rng.shuffle(groups)
    return [p for group in groups for p in group], jats


def run_case(ctx):  # pylint: disable=too-many-locals
    rng = ctx.rng
    pipe = pipes.PIPES['header']
    pieces, jats = header(rng, ctx)
    items = []
    for p in pieces:
        lines = wrapped(rng, p.text)
        ctx.event('several-lines', int(p.field is not None and len(lines) > 1))
        for line in lines:
            items += [((), -1, line), gen.LB, ((), -1, '\n')]
    xml = pipes.wrap_document(pipe, gen.render(items), rng)
    opts = ['--matcher', 'complex'] + rng.choice([[], ['--no-preserve-tags']])
    if rng.random() < 0.2:
        ctx.event('debug-match')
        opts += ['--debug-match', os.path.join(ctx.new_dir(), 'match.csv')]
    res, outs = pipes.run_documents(ctx, pipe, {'doc': (xml, jats.xml())}, opts)
    detail = dict(opts=opts, doc=xml, jats=jats.xml())
    if not ctx.require(res.error is None and os.path.exists(outs['doc']), 'command-failed', error=repr(res.error), **detail):
        return
    detail['output'] = pipes.read(outs['doc'])
    flat = tei.flatten_file(outs['doc'], pipe.container)
    text = ''.join(''.join(p.text.split()) for p in pieces)
    if not ctx.require(text == flat.dense, 'text-changed', **detail):
        return
    pos = 0
    if sum(len(p.values) for p in pieces) > 1:
        ctx.distinct(xml)
    for p in pieces:
        dense = ''.join(p.text.split())
        judge_piece(ctx, p, dense, flat.paths[pos:pos + len(dense)], detail)
        pos += len(dense)


def judge_piece(ctx, p, dense, paths, detail):
    ctx.event('piece:%s' % p.field)
    if p.field is None:
        ctx.require(all(x == OTHER for x in paths), 'unrelated-text-labelled', piece=p.text, got=repr(sorted(set(paths))), **detail)
        return
    path = truth.header_path(p.field)
    at = 0
    for value in p.values:
        word = ''.join(value.split())
        at = dense.index(word, at)
        got = paths[at:at + len(word)]
        at += len(word)
        ctx.event('values')
        ctx.event('words', len(value.split()))
        missing = ''.join(c for c, x in zip(word, got) if c.isalnum() and x[:len(path)] != path)
        if not ctx.require(not missing, 'value-not-labelled', field=p.field, value=value, missing=missing, labels=repr(sorted(set(got))), **detail):
            return

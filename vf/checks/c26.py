"""C26 matching settings of the mapping"""
import os

from vf import gen, judge, pipes, tei
from vf.gen import El

RULE = (
    'header documents with two to six fields of an own mapping file, each with random match-prefix-regex (quoted or not), alternative-spellings, merge, '
    'extend-to-line and max_chunks, given in the file or as overrides; values preceded by a word of the pattern (same line, line before, other case), by another word, '
    'or by none; replaced by one of several alternatives; two on one line; with a few words after them; in two pieces; '
    'oracle: label of every letter, and number of elements, from the settings; non-trivial: at least one setting that is not the default'
)
PLAN = {'quick': 1600, 'thorough': 40000}
REQUIRED_EVENTS = {
    'prefix-taken': 300, 'prefix-not-matching': 150, 'prefix-of-other-field': 100, 'quoted': 150, 'alternative-found': 250, 'alternative-absent': 60,
    'merged': 100, 'not-merged': 100, 'extended': 150, 'not-extended': 150, 'pieces-found': 150, 'pieces-not-found': 100, 'overrides': 200, 'own-section-order': 100,
}
KEYWORDS = ['\u03b1\u03b2\u03b3\u03b4\u03b5', '\u03b6\u03b7\u03b8\u03ba\u03bb', '\u03bc\u03bd\u03be\u03bf\u03c0', '\u03c1\u03c3\u03c4\u03c5\u03c6']


class Line:
    """words: [(text, field or None, value number)]"""
    def __init__(self, words):
        self.words = words


def plain(words, field=None, value=None):
    return [(w, field, value) for w in words]


def other(rng, v, n=None):
    return judge.foreign(v.phrase(n or rng.randint(2, 7)).lower()).split(' ')


def georgian(text):
    return ''.join(chr(0x10d0 + ord(c) - ord('a')) if c != ' ' else c for c in text.lower())


def run_case(ctx):  # pylint: disable=too-many-locals,too-many-branches,too-many-statements
    rng = ctx.rng
    pipe = pipes.PIPES['header']
    v = gen.Vocab(rng)
    names = rng.sample(['alpha', 'beta_field', 'gamma', 'delta-x', 'title', 'abstract', 'epsilon', 'zeta'], rng.randint(2, 6))
    settings, values, blocks = {}, {n: [] for n in names}, []
    events = []
    counter = [0]

    def number():
        counter[0] += 1
        return counter[0]

    for field in names:
        s = settings[field] = {}
        extend = rng.random() < 0.5
        if not extend or rng.random() < 0.3:
            s['extend-to-line'] = rng.choice(['true', 'True', 'yes', '1'] if extend else ['false', 'False', 'no', '0'])
        kind = rng.choice(['prefix', 'prefix', 'alternative', 'two', 'after', 'pieces', 'plain'])
        if kind == 'pieces' and any(x.startswith('pieces') for x in events):
            kind = 'after'
        words = v.phrase(rng.randint(6, 14)).split(' ')
        value = ' '.join(words)
        no = number()
        if kind in ('prefix', 'plain'):
            keys = rng.sample(KEYWORDS, 2)
            if kind == 'prefix':
                pattern = rng.choice([r'(%s|%s)\s*$', r'(%s|%s)\s+$', r'\b(?:%s|%s)\s*$', r'(%s|%s)( \d+)?\s*$']) % tuple(keys)
                if rng.random() < 0.5:
                    pattern = '"%s"' % pattern
                    events.append('quoted')
                s['match-prefix-regex'] = pattern
            how = rng.choice(['match', 'match', 'other-word', 'apart', 'none'])
            before = {
                'match': [rng.choice(keys)], 'other-word': [next(k for k in KEYWORDS if k not in keys)], 'apart': [rng.choice(keys)] + other(rng, v, 1), 'none': []}[how]
            if rng.random() < 0.3:
                before = [w.upper() for w in before]
            taken = kind == 'prefix' and how == 'match'
            if taken:
                events.append('prefix-taken')
            elif before:
                events.append('prefix-not-matching' if kind == 'prefix' else 'prefix-of-other-field')
            marked = plain(before, field if taken else None, no)
            lines = [x.split(' ') for x in gen.wrap_lines(rng, value, 30, 60)]
            new = [Line(plain(x, field, no)) for x in lines]
            if marked:
                if rng.random() < 0.5 or len(lines[0]) < 3:
                    new.insert(0, Line(marked))
                else:
                    # on the line of the value: belongs to it anyway, if that may be extended
                    if extend:
                        marked = plain(before, field, no)
                    new[0].words[:0] = marked
            blocks.append(new)
            values[field].append(value)
        elif kind == 'alternative':
            alternatives = [v.phrase(rng.randint(4, 9)) for _ in range(rng.randint(1, 3))]
            spelled = [(value, alternatives)] + [(v.phrase(5), [v.phrase(5)]) for _ in range(rng.randint(0, 2))]
            rng.shuffle(spelled)
            s['alternative-spellings'] = '\n' + '\n'.join('    %s%s%s' % (k, rng.choice(['=', ' = ']), ','.join(a)) for k, a in spelled)
            values[field].append(value)
            if rng.random() < 0.8:
                events.append('alternative-found')
                shown = rng.choice(alternatives)
                blocks.append([Line(plain(x.split(' '), field, no)) for x in gen.wrap_lines(rng, shown, 30, 60)])
            else:
                # not those of another value
                events.append('alternative-absent')
                blocks.append([Line(plain(rng.choice([a for k, a in spelled if k != value] or [[' '.join(other(rng, v))]])[0].split(' ')))])
        elif kind == 'two':
            merge = rng.random() < 0.5
            if not merge or rng.random() < 0.5:
                s['merge'] = 'true' if merge else 'false'
            second = v.phrase(rng.randint(5, 8)).split(' ')
            words = words[:8]
            between = other(rng, v, rng.randint(1, 2)) if rng.random() < 0.7 else []
            values[field] += [' '.join(words), ' '.join(second)]
            no2 = no if merge else number()
            blocks.append([Line(plain(words, field, no) + plain(between, field if merge else None, no) + plain(second, field, no2))])
            events.append('merged' if merge else 'not-merged')
        elif kind == 'after':
            extra = other(rng, v, rng.randint(1, len(words) - 1))
            line = plain(words, field, no)
            marked = plain(extra, field if extend else None, no)
            blocks.append([Line(line + marked if rng.random() < 0.5 else marked + line)])
            values[field].append(value)
            events.append('extended' if extend else 'not-extended')
        else:
            chunks = rng.choice([None, 1, 2, 2, 3])
            if chunks:
                s['max_chunks'] = str(chunks)
            sizes = [rng.randint(7, 10) for _ in range(2)]
            # letters of their own: the rest of a piece is looked for everywhere
            pieces = [georgian(v.phrase(n)) for n in sizes]
            found = field if (chunks or 1) > 1 else None
            values[field].append(' '.join(pieces))
            new = []
            for i, piece in enumerate(pieces):
                # enough in between for the whole not to be one occurrence with a few wrong words
                between = 0
                while i and between < sum(sizes):
                    new.append(Line(plain(other(rng, v))))
                    between += len(new[-1].words)
                new.append(Line(plain(piece.split(' '), found, no if not i else number())))
            blocks.append(new)
            events.append('pieces-found' if found else 'pieces-not-found')
    rng.shuffle(blocks)
    lines = []
    for block in blocks:
        lines += [Line(plain(other(rng, v))) for _ in range(rng.randint(1, 3))] + block
    lines += [Line(plain(other(rng, v))) for _ in range(rng.randint(1, 3))]
    # -- mapping
    order = list(names)
    if rng.random() < 0.5:
        rng.shuffle(order)
        events.append('own-section-order')
    overrides = []
    conf = ['[article]']
    late = []
    for field in order:
        conf.append('%s = front/article-meta/%s' % (field, field))
        for key, value in settings[field].items():
            if '|' not in value and '\n' not in value and rng.random() < 0.3:
                overrides.append('%s.%s=%s' % (field, key, value))
                if rng.random() < 0.5 and key in ('extend-to-line', 'merge'):
                    conf.append('%s.%s = %s' % (field, key, rng.choice(['true', 'false'])))
            else:
                (conf if rng.random() < 0.7 else late).append('%s.%s = %s' % (field, key, value))
    conf += late
    mapping = os.path.join(ctx.new_dir('conf'), 'mapping.conf')
    with open(mapping, 'w', encoding='utf-8') as f:
        f.write('\n'.join(conf) + '\n')
    jats = gen.Jats()
    for field in rng.sample(names, len(names)):
        jats.article_meta += [El(field, x) for x in values[field]]
    # -- run
    items = [x for line in lines for x in (((), -1, ' '.join(w for w, _, _ in line.words)), gen.LB, ((), -1, '\n'))]
    xml = pipes.wrap_document(pipe, gen.render(items), rng)
    src, out, target = ctx.new_dir('src'), ctx.new_dir('out'), ctx.new_dir('xml')
    pipes.write(os.path.join(src, 'doc' + pipe.suffix), xml)
    pipes.write(os.path.join(target, 'doc.xml'), jats.xml())
    argv = pipe.argv(src, out, target)
    argv[argv.index('--xml-mapping-path') + 1] = mapping
    if overrides:
        argv += ['--xml-mapping-overrides', '|'.join(overrides)]
        ctx.event('overrides')
    if rng.random() < 0.3:
        argv += ['--fields', ','.join(names)]
    result = pipes.run(pipe, src, out, target, argv=argv)
    detail = dict(conf='\n'.join(conf), overrides=overrides, doc=xml, jats=jats.xml())
    path = os.path.join(out, 'doc' + pipe.suffix)
    if not ctx.require(result.error is None and os.path.exists(path), 'command-failed', error=repr(result.error), **detail):
        return
    for e in events:
        ctx.event(e)
    flat = tei.flatten_file(path, pipe.container)
    from vf import truth
    pos = 0
    elements = {}
    for line in lines:
        for word, field, no in line.words:
            paths = flat.paths[pos:pos + len(word)]
            want = truth.header_path(field) if field else truth.NOTE_OTHER
            if not ctx.require(all(p == want for p in paths), 'setting-not-followed', word=word, want=want, actual=paths[0],
                               text=flat.slice_text(max(0, pos - 40), pos + 40), output=pipes.read(path), **detail):
                return
            if field:
                elements.setdefault(no, set()).update(i[:len(want)] for i in flat.ids[pos:pos + len(word)])
            pos += len(word)
    ctx.require(pos == len(flat.dense), 'text-changed', **detail)
    ctx.require(all(len(x) == 1 for x in elements.values()), 'value-split', elements=repr(elements), output=pipes.read(path), **detail)
    used = [next(iter(x)) for x in elements.values()]
    ctx.require(len(set(used)) == len(used), 'values-joined', elements=repr(elements), output=pipes.read(path), **detail)
    if any(settings.values()):
        ctx.distinct(conf, xml)

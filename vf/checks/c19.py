"""C19 malformed sources"""
import os
import re

from vf import gen, jats, pipes, tei, work
from vf.checks import c06, c14

RULE = (
    'fulltext training files with existing elements on up to four levels into which defects are injected at any position: end tags of a wrong name, missing, '
    'exchanged with the next ones, used for a later element, missing ends of file, unescaped & and <; figure training files with stray end tags of content elements; JATS files with '
    'leading white space or undeclared dagger entities, in the JATS fixing command; oracle: output for the same file without the defect (text, labels of all text that the defect '
    'leaves unambiguous, rest of the file); non-trivial: the damaged file is not well-formed'
)
PLAN = {'quick': 2000, 'thorough': 26000}
REQUIRED_EVENTS = {
    'defect:wrong-end': 120, 'defect:missing-inner-end': 60, 'defect:missing-outer-end': 60, 'defect:exchanged-ends': 60, 'defect:rotated-ends': 30, 'defect:missing-then-wrong': 60, 'defect:cut': 60, 'defect:characters': 100,
    'defect:content-end': 60, 'defect:jats-space': 40, 'defect:jats-entity': 40, 'labels-compared': 100000,
}
TAG = re.compile(r'<[^<>]+>|[^<]+')
NAME = re.compile(r'</?([^\s/>]+)')
WRONG = ['p', 'figure', 'ref', 'div', 'figDesc', 'b', 'note', 'listBibl', 'item', 'X']


class Parsed:
    """tags of a well-formed text, and which belong together"""

    def __init__(self, text):
        self.tokens = TAG.findall(text)
        assert ''.join(self.tokens) == text
        self.end = {}      # index of start tag -> index of end tag
        self.parent = {}
        stack = []
        for i, t in enumerate(self.tokens):
            if t.startswith('<?') or not t.startswith('<') or t.endswith('/>'):
                continue
            if t.startswith('</'):
                self.end[stack.pop()] = i
            else:
                self.parent[i] = stack[-1] if stack else None
                stack.append(i)

    def name(self, i):
        return NAME.match(self.tokens[i]).group(1)

    def ancestors(self, i):
        while i is not None:
            yield i
            i = self.parent[i]

    def depth(self, i):
        return len(list(self.ancestors(i)))

    def dense_offset(self, index, container):
        """number of non-blank characters in the container before token index"""
        text = ''.join(t for t in self.tokens[container:index] if not t.startswith('<'))
        text = re.sub(r'&(amp|lt|gt|quot|apos|#\d+|#x[0-9a-fA-F]+);', 'x', text)
        return len(''.join(text.split()))


def damage(rng, xml, kind):
    """-> (intact, damaged, ranges of non-blank characters whose labels are not determined)"""
    p = Parsed(xml)
    container = next(i for i in p.end if p.name(i) == 'text')
    inside = [i for i in p.end if container in p.ancestors(i) and i != container]
    base = p.depth(container)
    tokens = list(p.tokens)
    free = []
    if kind == 'wrong-end':
        candidates = list(inside)
        rng.shuffle(candidates)
        for i in candidates[:rng.choice([1, 1, 2, 5])]:
            names = {p.name(a).lower() for a in p.ancestors(i)}
            tokens[p.end[i]] = '</%s>' % rng.choice([w for w in WRONG if w.lower() not in names])
        if not candidates:
            return None
    elif kind == 'missing-inner-end':
        candidates = [i for i in inside if p.depth(i) > base + 1 and p.name(i) != p.name(p.parent[i])]
        if not candidates:
            return None
        i = rng.choice(candidates)
        if p.name(i) in {p.name(a) for a in p.ancestors(p.parent[i])}:
            return None
        tokens[p.end[i]] = ''
        free.append((p.dense_offset(p.end[i], container), p.dense_offset(p.end[p.parent[i]], container)))
    elif kind == 'missing-outer-end':
        candidates = [i for i in inside if p.depth(i) == base + 1]
        if not candidates:
            return None
        i = rng.choice(candidates)
        tokens[p.end[i]] = ''
        free.append((p.dense_offset(i, container), 10 ** 9))
    elif kind == 'exchanged-ends':
        pairs = [i for i in inside if p.depth(i) > base + 1 and p.end[p.parent[i]] == p.end[i] + 1 and p.name(i) != p.name(p.parent[i])
                 and p.name(i) not in {p.name(a) for a in p.ancestors(p.parent[i])}]
        if not pairs:
            return None
        i = rng.choice(pairs)
        a, b = p.end[i], p.end[p.parent[i]]
        tokens[a], tokens[b] = tokens[b], tokens[a]
    elif kind == 'rotated-ends':
        # ends of three elements that end together, in another order that starts with the outermost
        triples = [i for i in inside if p.depth(i) > base + 2 and p.end[p.parent[i]] == p.end[i] + 1 and p.end[p.parent[p.parent[i]]] == p.end[i] + 2]
        triples = [i for i in triples if len({p.name(a) for a in p.ancestors(i)}) == p.depth(i)]
        if not triples:
            return None
        at = p.end[rng.choice(triples)]
        c, b, a = tokens[at:at + 3]
        tokens[at:at + 3] = rng.choice([[a, c, b], [a, b, c]])
    elif kind == 'missing-then-wrong':
        # the end tag that is missing turns up as the end of a later element
        inner = [i for i in inside if p.depth(i) > base + 1 and p.name(i) not in {p.name(a) for a in p.ancestors(p.parent[i])}]
        pairs = [(i, j) for i in inner for j in inside if j > p.end[i] and p.parent[i] not in p.ancestors(j) and p.name(i) not in {p.name(a) for a in p.ancestors(j)}]
        if not pairs:
            return None
        i, j = rng.choice(pairs)
        tokens[p.end[i]] = ''
        tokens[p.end[j]] = '</%s>' % p.name(i)
        free.append((p.dense_offset(p.end[i], container), p.dense_offset(p.end[p.parent[i]], container)))
    elif kind == 'cut':
        root = p.parent[container]
        ends = [p.end[container], p.end[root]]
        if rng.random() < 0.5:
            tokens[ends[1]] = ''
            if rng.random() < 0.5:
                tokens[ends[0]] = ''
                tokens = tokens[:ends[0]]
        else:
            tokens[ends[rng.choice([0, 1])]] = '</other>'
    elif kind == 'characters':
        candidates = [i for i, t in enumerate(tokens) if container < i < p.end[container] and not t.startswith('<') and t.strip()]
        if not candidates:
            return None
        intact = list(tokens)
        for i in rng.sample(candidates, min(len(candidates), rng.choice([1, 1, 3]))):
            words = tokens[i].split(' ')
            at = rng.randint(0, len(words))
            good, bad = rng.choice([('R&amp;D', 'R&D'), ('&amp;', '&'), ('x &lt; 0.05', 'x < 0.05'), ('x&lt;0.05', 'x<0.05'), ('&lt;', '< ')])
            intact[i] = ' '.join(words[:at] + [good] + words[at:])
            tokens[i] = ' '.join(words[:at] + [bad] + words[at:])
        return ''.join(intact), ''.join(tokens), free
    return xml, ''.join(tokens), free


def run_case(ctx):
    r = ctx.rng.random()
    if r < 0.8:
        fulltext(ctx)
    elif r < 0.9:
        figure(ctx)
    else:
        target(ctx)


def outputs(ctx, pipe, docs, target_xml, opts):
    result = {}
    for name, doc in docs.items():
        res, outs = pipes.run_documents(ctx, pipe, {'doc': (doc, target_xml)}, opts)
        if not ctx.require(res.error is None and os.path.exists(outs['doc']), 'command-failed', which=name, error=repr(res.error), opts=opts, doc=doc, jats=target_xml):
            return None
        data = pipes.read(outs['doc'])
        try:
            root = tei.parse(outs['doc'])
            result[name] = (data, tei.flatten_file(outs['doc'], pipe.container), tei.outside_repr(root, pipe.container))
        except Exception as e:  # pylint: disable=broad-except
            ctx.violation('output-unreadable', which=name, error=repr(e), doc=doc, output=data)
            return None
    return result


def compare(ctx, intact, damaged, kind, free, opts, target_xml, pipe):
    result = outputs(ctx, pipe, {'intact': intact, 'damaged': damaged}, target_xml, opts)
    if result is None:
        return
    ctx.event('defect:' + kind)
    ctx.distinct(kind, damaged)
    a, b = result['intact'], result['damaged']
    detail = dict(defect=kind, opts=opts, intact=intact, damaged=damaged, jats=target_xml, expected=a[0], output=b[0])
    if not ctx.require(a[1].dense == b[1].dense, 'text-changed', **detail):
        return
    ctx.require(a[2] == b[2], 'rest-of-file-changed', before=repr(a[2])[:1500], after=repr(b[2])[:1500], **detail)
    checked = [i for i in range(len(a[1].chars)) if not any(x <= i < y for x, y in free)]
    ctx.event('labels-compared', len(checked))
    wrong = [i for i in checked if a[1].paths[i] != b[1].paths[i]]
    if wrong:
        ctx.violation('labels-changed', text=a[1].slice_text(max(0, wrong[0] - 20), wrong[0] + 40), before=a[1].paths[wrong[0]], after=b[1].paths[wrong[0]], **detail)
    elif not free:
        ctx.require(len(a[1].lbs) == len(b[1].lbs), 'lines-changed', **detail)


def nested(rng, items):
    """elements on two more levels inside of the existing ones, which stay open"""
    result = []
    group, inner, outer = None, (), ()
    for item in items:
        if item is gen.LB or not item[0]:
            result.append(item)
            continue
        path, item_group, text = item
        if (path, item_group) != group:
            group, inner, outer = (path, item_group), (), path
        for word in re.findall(r'\S+\s*|\s+', text):
            if word.strip() and rng.random() < 0.25:
                names = [n for n in ('ref[@type="biblio"]', 'hi[@rend="bold"]', 'figDesc', 'note') if n not in path]
                if len(path) > 1 and rng.random() < 0.3:
                    outer = rng.choice([path, path[:1]])
                inner = rng.choice([(), (), inner[:1], inner[:1], tuple(rng.sample(names, 1)), tuple(rng.sample(names, 2)), tuple(rng.sample(names, 2))])
            result.append((outer + inner, item_group, word))
    return result


def fulltext_document(rng, pipe):
    doc = work.TRUTH['fulltext'](rng)
    items = doc.items(existing=work.existing_markup(rng, 'fulltext', doc))
    if rng.random() < 0.5:
        # parts of it in elements of their own
        items = [
            ((item[0] + (rng.choice(['ref[@type="biblio"]', 'hi[@rend="bold"]', 'figDesc']),), 10000 + i, item[2])
             if item is not gen.LB and item[0] and item[2].strip() and rng.random() < 0.3 else item)
            for i, item in enumerate(items)]
    elif rng.random() < 0.7:
        items = nested(rng, items)
    if rng.random() < 0.2:
        # all of them in another element
        outer = rng.choice(['figDesc', 'listBibl'])
        items = [item if item is gen.LB or not item[0] or outer in item[0] else ((outer,) + item[0],) + item[1:] for item in items]
    return doc, pipes.wrap_document(pipe, gen.render(items), rng)


def fulltext(ctx):
    rng = ctx.rng
    pipe = pipes.PIPES['fulltext']
    kind = rng.choice(['wrong-end', 'wrong-end', 'missing-inner-end', 'missing-outer-end', 'exchanged-ends', 'rotated-ends', 'missing-then-wrong', 'cut', 'characters'])
    result = None
    for _ in range(4):
        doc, xml = fulltext_document(rng, pipe)
        result = damage(rng, xml, kind)
        if result:
            break
    if result is None:
        # no place for this one
        kind = rng.choice(['characters', 'cut'])
        result = damage(rng, xml, kind)
    if result is None:
        return
    intact, damaged, free = result
    if rng.random() < 0.5:
        target_xml, opts = b'<article/>', ['--always-preserve-fields', ','.join(c06.FULLTEXT_FIELDS)]
    else:
        target_xml, opts = doc.jats.xml(), rng.choice([[], [], ['--no-preserve-tags']])
    compare(ctx, intact, damaged, kind, free, opts, target_xml, pipe)


def figure(ctx):
    rng = ctx.rng
    pipe = pipes.PIPES['figure']
    doc = work.TRUTH['figure'](rng)
    xml = pipes.wrap_document(pipe, gen.render(doc.items(existing=work.existing_markup(rng, 'figure', doc))), rng)
    positions = [m.end() for m in re.finditer(r'</figure>|<lb/>|</note>|</label>|\w ', xml[:xml.rindex('</text>')]) if m.start() > xml.index('<text')]
    if not positions:
        return
    damaged = xml
    for at in sorted(rng.sample(positions, min(len(positions), rng.choice([1, 1, 2, 5]))), reverse=True):
        damaged = damaged[:at] + '</content>' + damaged[at:]
    compare(ctx, xml, damaged, 'content-end', [], rng.choice([[], ['--preserve-sub-tags'], ['--segment-figures']]), doc.jats.xml(), pipe)


def target(ctx):
    rng = ctx.rng
    text = c14.document(rng, ['<ref id="r1"><mixed-citation>A title, PMID: 12345</mixed-citation></ref>'])
    kind = rng.choice(['jats-space', 'jats-entity'])
    if kind == 'jats-space':
        if not text.startswith('<?xml'):
            text = '<?xml version="1.0" encoding="UTF-8"?>\n' + text
        intact, damaged = text, rng.choice(['\n', ' ', '\t', '\r\n', '  \n\n ']) + text
    else:
        if '<!DOCTYPE' in text or '<title>Intro</title>' not in text:
            return
        n = rng.choice([1, 3])
        intact = text.replace('<title>Intro</title>', '<title>Intro%s</title>' % ('\u2020, ' * n))
        damaged = text.replace('<title>Intro</title>', '<title>Intro%s</title>' % ('&dagger;, ' * n))
    a = jats.fix_text(ctx, intact.encode('utf-8'))
    b = jats.fix_text(ctx, damaged.encode('utf-8'))
    ctx.event('defect:' + kind)
    ctx.distinct(kind, damaged)
    if not ctx.require(a[0] is None and a[1] and b[0] is None and b[1], 'command-failed', error=repr((a[0], b[0])), damaged=damaged):
        return
    roots = [jats.without_meta(jats.parse(x[1]).getroot()) for x in (a, b)]
    ctx.require(jats.canonical(roots[0]) == jats.canonical(roots[1]), 'repair-changes-document', intact=intact, damaged=damaged, expected=a[1], output=b[1])

"""C11 parts of references"""
import os

from vf import gen, pipes, tei, truth
from vf.gen import El
from vf.truth import REF_SUB

RULE = (
    'references made of any combination of labels, author and editor groups (any separators, et al., closing full stop), years, titles, '
    'sources, publishers, volume and issue, page ranges, identifiers with and without prefix and web links, in several '
    'orders, wrapped anywhere; monitor: label of every character, and one element per group; non-trivial: at least four kinds of parts'
)
PLAN = {'quick': 1800, 'thorough': 30000}
REQUIRED_EVENTS = {'references': 1500, 'groups-checked': 1500, 'with-etal': 150, 'with-editors': 150, 'with-prefix': 300,
                   'page-ranges': 300, 'names-comma': 150, 'repeated-year': 100, 'any-order': 150, 'trailing-text': 100}

PREFIXES = {
    'doi': ['doi:', 'doi: ', 'DOI: ', 'doi ', 'DOI : ', 'Doi: ', 'Doi:'],
    'pii': ['pii: ', 'PII: ', 'PII '],
    'pmid': ['PMID: ', 'PMID ', 'pmid:', 'PubMed: '],
    'pmcid': ['', '', 'PMCID: '],
    'arXiv': ['arXiv: ', 'arXiv:'],
    'issn': ['ISSN ', 'ISSN: '],
    'isbn': ['ISBN ', 'ISBN: ', 'isbn:'],
}


class Rich(truth.Ref):
    def names(self, rng, v, kind, n, closing):
        """one group of names, everything from the first to the last belongs to it"""
        el_parent = self.citation.children
        if kind == 'editor':
            group = El('person-group', person_group_type='editor')
            el_parent.append(group)
            el_parent = group.children
        path = REF_SUB[kind]
        sep = rng.choice([', ', '; ', ', '])
        initials = rng.random() < 0.3
        for i in range(n):
            if i:
                s = sep if i < n - 1 or rng.random() < 0.5 else rng.choice([' & ', ' and ', ', & ', ', and '])
                self.toks.append((s, path))
                el_parent.append(s)
            surname = v.name()
            given = v.name()[:1] + v.name()[:1] if initials else v.name()
            el = El('string-name', El('surname', surname), ' ', El('given-names', given)) if rng.random() < 0.7 else \
                El('string-name', El('given-names', given), ' ', El('surname', surname))
            self.toks.append((el.text(), path))
            el_parent.append(el)
        if kind == 'author' and rng.random() < 0.3:
            s = rng.choice([', ', ' '])
            self.toks.append((s, path))
            el_parent.append(s)
            value = rng.choice(['et al.', 'et al'])
            self.toks.append((value, path))
            el_parent.append(El('etal', value))
            self.kinds.append('etal')
        if closing == '.' and self.toks[-1][0] != 'et al.':
            self.toks.append(('.', path))
            self.citation.children.append('.')
        elif closing not in ('', '.'):
            # other punctuation is not part of the names
            self.toks.append((closing, None))
            self.citation.children.append(closing)
            self.kinds.append('names-comma')
        self.toks.append((' ', None))
        self.citation.children.append(' ')
        self.kinds.append(kind)


def rich_reference(rng, v, i, prefixed):
    r = Rich()
    if rng.random() < 0.3:
        r.label = rng.choice(['%d.', '[%d]', '%d']) % (i + 1)
        r.toks += [(r.label, REF_SUB['label']), (' ', None)]
        r.kinds.append('label')

    def authors():
        r.names(rng, v, 'author', rng.randint(1, 5), rng.choice(['', '.', '.', '.', ',', ';', ':']))

    the_year = v.number(4)
    repeat = rng.random() < 0.2

    def year():
        r.kinds.append('year')
        style = rng.choice(['()', '.', ','])
        if style == '()':
            r.raw('(')
            r.el(El('year', the_year), 'year')
            r.raw(') ')
        else:
            r.el(El('year', the_year), 'year')
            r.raw(style + ' ')

    def title():
        text = v.phrase(rng.randint(3, 11))
        if repeat:
            # the year is mentioned in the title, too
            words = text.split(' ')
            words.insert(rng.randint(1, len(words) - 1), the_year)
            text = ' '.join(words)
            r.kinds.append('repeated-year')
        r.el(El('article-title', text), 'article-title')
        r.raw(rng.choice(['. ', ', ']))

    def source():
        r.el(El('source', v.phrase(rng.randint(2, 4))), 'source')
        r.raw(rng.choice([', ', '. ', ' ']))

    def editors():
        r.raw(rng.choice(['In: ', 'in: ']))
        r.names(rng, v, 'editor', rng.randint(1, 3), rng.choice(['', '', ',']))
        r.raw(rng.choice(['(eds) ', '(ed) ', '(eds), ']))

    def publisher():
        r.el(El('publisher-name', v.phrase(2)), 'publisher-name')
        r.raw(rng.choice([', ', ': ']))
        r.el(El('publisher-loc', v.phrase(1, 8, 11)), 'publisher-loc')
        r.raw('. ')

    def volume():
        r.el(El('volume', v.number(3)), 'volume')
        if rng.random() < 0.5:
            r.raw('(')
            # the same number may occur twice
            r.el(El('issue', r.toks[-2][0] if rng.random() < 0.2 else v.number(2)), 'issue')
            r.raw(')')
        r.raw(rng.choice([', ', ': ', ':']))

    def pages():
        fpage, lpage = sorted([v.number(4), v.number(4)])
        if rng.random() < 0.2:
            r.el(El('fpage', fpage), 'page')
        else:
            r.el(El('fpage', fpage), 'page')
            r.raw(rng.choice(['-', '\u2013', ' - ']), REF_SUB['page'])
            r.el(El('lpage', lpage), 'page')
            r.kinds.append('page-range')
        r.raw('. ')

    def idno(kind):
        value = {
            'doi': lambda: '10.%s/%s.%s' % (v.number(4), v.word(6, 9), v.number(5)),
            'pmid': lambda: v.number(8),
            'pmcid': lambda: 'PMC' + v.number(7),
            'pii': lambda: 'S' + v.number(9),
            'arXiv': lambda: '%s.%s' % (v.number(4), v.number(5)),
            'issn': lambda: '%s-%s' % (v.number(4), v.number(4)),
            'isbn': lambda: '978-%s-%s' % (v.number(5), v.number(4)),
        }[kind]()
        prefix = rng.choice(PREFIXES[kind])
        if prefix:
            # the blank behind the prefix is not judged
            r.raw(prefix, REF_SUB[kind] if prefixed else None)
            r.kinds.append('prefix')
        el = El(kind, value) if kind in ('issn', 'isbn') else El('pub-id', value, pub_id_type=kind)
        r.el(el, kind)
        r.raw(rng.choice(['. ', '; ', ', ']))

    def link():
        r.el(El('ext-link', 'https://www.%s.org/%s' % (v.word(8, 12), v.word(8, 12)), ext_link_type='uri'), 'ext-link')
        r.raw(' ')

    order = [(authors, 0.95), (year, 0.7), (title, 0.9), (editors, 0.25), (source, 0.8), (publisher, 0.2),
             (volume, 0.6), (pages, 0.6)]
    if rng.random() < 0.3:
        order.insert(6, order.pop(1))
    parts = [part for part, p in order if rng.random() < p]
    parts += [lambda kind=kind: idno(kind) for kind in rng.sample(sorted(PREFIXES), rng.choice([0, 1, 1, 2, 3]))]
    if rng.random() < 0.2:
        parts.append(link)
    if rng.random() < 0.2:
        # any order
        rng.shuffle(parts)
        r.kinds.append('any-order')
    for part in parts:
        part()
    if 'year' not in r.kinds and 'repeated-year' in r.kinds or [k for k in r.kinds if k in REF_SUB][-1:] in (['year'], ['issue']):
        # what delimits the reference has to be unique
        return rich_reference(rng, v, i, prefixed)
    if rng.random() < 0.15:
        r.raw(' '.join(v.words(rng.randint(1, 3))))
        r.kinds.append('trailing-text')
    while r.toks and not r.toks[-1][0].strip():
        r.toks.pop()
        r.citation.children.pop()
    t, path = r.toks[-1]
    r.toks[-1] = (t.rstrip(), path)
    if isinstance(r.citation.children[-1], str):
        r.citation.children[-1] = r.citation.children[-1].rstrip()
    return r


GROUPS = {'author', 'editor', 'page'}


def run_case(ctx):
    rng = ctx.rng
    pipe = pipes.PIPES['reference']
    v = gen.Vocab(rng)
    doc = truth.Doc('reference', truth.NOTE_OTHER)
    prefixed = rng.random() < 0.5
    refs, made = [], []
    for i in range(rng.randint(1, 4)):
        while True:
            ref = rich_reference(rng, v, i, prefixed)
            if len(set(ref.kinds)) >= 3 and len(ref.text) > 60:
                break
        made.append(ref)
        doc.add('reference', gen.wrap_lines(rng, ref.text, 40, 120), ('bibl',), spans=ref.spans())
        refs.append(ref.element(i))
        ctx.event('references')
        ctx.event('with-etal', int('etal' in ref.kinds))
        ctx.event('with-editors', int('editor' in ref.kinds))
        ctx.event('with-prefix', int('prefix' in ref.kinds))
        for kind in ('names-comma', 'repeated-year', 'any-order', 'trailing-text'):
            ctx.event(kind, int(kind in ref.kinds))
        ctx.event('page-ranges', int('page-range' in ref.kinds))
    doc.jats.back.append(El('ref-list', *refs))
    opts = []
    existing = None
    if rng.random() < 0.5:
        opts.append('--segment-references')
    else:
        existing = lambda block: ('bibl',)  # noqa
    if rng.random() < 0.3:
        opts.append('--no-preserve-tags')
    if prefixed:
        opts.append('--include-idno-prefix')
    xml = pipes.wrap_document(pipe, gen.render(doc.items(existing=existing)), rng)
    jats = doc.jats.xml()
    result, outs = pipes.run_documents(ctx, pipe, {'doc': (xml, jats)}, opts)
    if result.error is not None or not os.path.exists(outs['doc']):
        ctx.violation('command-failed', opts=opts, error=repr(result.error), doc=xml, jats=jats)
        return
    try:
        flat = tei.flatten_file(outs['doc'], pipe.container)
    except Exception as e:  # pylint: disable=broad-except
        ctx.violation('output-unreadable', opts=opts, error=repr(e), doc=xml)
        return
    chars, paths, owner = doc.expected()
    output = pipes.read(outs['doc'])
    if not ctx.require(flat.dense == chars, 'text-changed', expected=chars, actual=flat.dense):
        return
    wrong = [i for i in range(len(chars)) if flat.paths[i] != paths[i]]
    ctx.require(
        not wrong, 'part-wrong', opts=opts, text=flat.slice_text(max(0, wrong[0] - 20), wrong[0] + 40) if wrong else '',
        expected=paths[wrong[0]] if wrong else '', actual=flat.paths[wrong[0]] if wrong else '',
        doc=xml, jats=jats, output=output)
    if wrong:
        return
    for b in range(len(doc.blocks)):
        by_path = {}
        for i in range(len(chars)):
            if owner[i] == b and len(paths[i]) > 1:
                by_path.setdefault(paths[i], set()).add(flat.ids[i])
        for path, ids in by_path.items():
            ctx.event('groups-checked')
            ctx.require(len(ids) == 1, 'group-split', path=path, opts=opts, doc=xml, jats=jats, output=output)
    if any(len(set(r.kinds)) >= 4 for r in made):
        ctx.distinct(opts, chars)

"""C14 fixing JATS conserves text"""
from xml.sax.saxutils import escape, quoteattr

from vf import jats

RULE = (
    'JATS documents with references of random structure: text and elements (titles, identifiers of every type, links, '
    'comments, nested formatting, XML comments) made from fragments that the repairs look for (identifiers, prefixes, labels, '
    'quotes, URLs, separators) in any position and nesting, through the command; oracle: text in document order unchanged; '
    'non-trivial: a reference was changed'
)
PLAN = {'quick': 10000, 'thorough': 120000}
REQUIRED_EVENTS = {
    'documents': 2000, 'references': 5000, 'changed-references': 3000, 'characters': 200000,
    'new-ext-link': 300, 'new-pub-id': 1000, 'removed-pub-id': 300, 'nested': 1000
}

DOIS = ['10.1234/abc', '10.1016/j.cell.2019.01.002', '10.1000/182', '10.1038/s41586-020-2649-2', '10.1234.5/x[1]y',
        '10.1234/abc(2)-;3', '10.1234/ab c']
FRAGMENTS = [
    'doi:', 'doi: ', 'DOI ', 'https://doi.org/', 'http://dx.doi.org/', 'https : // doi . org / ', 'doi.org/', '[doi]', ' [pii]',
    'PMID: 12345678', 'PMID:1', 'PMID : 12345678901', 'PMC123456', 'pmc77', 'PMCPMC123', 'PMCID: PMC1', 'WOS:000123456789012',
    'WOS: 000123456789012', 'S0140-6736(19)30001-9', 'S0031-9384(19)30001-X', 'B0140673619300019', '12345 [pii]', 'doi:abcdef [pii]',
    'http://example.org/a', 'https://example.org/b?x=1&y=2', 'www.example.org', '[10.1234/abc]', '; PMC123', ', ', '. ', '; ', ' ',
    '\n', '"', '\u2018', '\u2019', '\u201c', '\u201d', '"Quoted title"', '\u2018Quoted\u2019', '\u201cQuoted\u201d',
    'Title of the article', 'PubMed PMID', ' Epub', ' Accessed', '(PMID', 'et al', '\u00e9\u4e2d\u0301', '12', '2019', 'x', '<', '&', ']', '[',
    'Error', 'Available from ', ',', '1234567', '\u00a0', '\t', '\U0001f600', 'p. 1-2',
]
PUB_TYPES = ['doi', 'pmid', 'pmcid', 'pii', 'other', 'DOI', 'PMID', 'Pmcid', 'arxiv', 'publisher-id', 'custom', None]


def text(rng, n=3):
    parts = []
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, n])):
        if rng.random() < 0.3:
            parts.append(rng.choice(DOIS))
        else:
            parts.append(rng.choice(FRAGMENTS))
    return ''.join(parts)


def targeted(rng, tag, ptype):
    """Text of the kind the element is meant for, with noise."""
    core = {
        'doi': lambda: rng.choice(DOIS),
        'pmid': lambda: rng.choice(['1234567', 'PMID: 1234567', '12345678901234']),
        'pmcid': lambda: rng.choice(['PMC12345', 'PMCPMC12345', 'pmc12', '12345']),
        'pii': lambda: rng.choice(['S0140-6736(19)30001-9', 'abc', 'S0031938419300019']),
    }.get((ptype or '').lower())
    if tag == 'ext-link':
        return rng.choice(['http://example.org/a', 'https://doi.org/10.1234/abc', 'https://doi.org/10.1234/abc[10.1234/abc]',
                           'http://a.org/xhttp://b.org/y', 'https://a.org/ https://b.org/ http://c.org/z'])
    if tag == 'article-title':
        q = rng.choice(['', '', '"', '\u2018', '\u201c'])
        r = {'': '', '"': '"', '\u2018': '\u2019', '\u201c': '\u201d'}[q]
        return q + 'Some title' + rng.choice(['', r, r + ', ', '; PMC12345', ', ', ' ,'])
    if core is None:
        return text(rng)
    return rng.choice(['', '', 'doi:', 'https://doi.org/', text(rng, 1)]) + core() + rng.choice(
        ['', '', '.', ' [doi]', ' [pii]', ' PMID: 1', text(rng, 1)])


def element(rng, depth, stats):
    kind = rng.choice(['pub-id'] * 5 + ['ext-link', 'ext-link', 'article-title', 'article-title', 'comment', 'comment', 'italic', 'source',
                                        'year', 'volume', 'person-group', 'xml-comment', 'pi', 'mixed-citation'])
    if kind == 'xml-comment':
        return '<!--%s-->' % rng.choice(['note', 'doi:10.1234/abc', ' PMID: 123 ', '"'])
    if kind == 'pi':
        return '<?page %s?>' % rng.choice(['12', 'break'])
    attrs = {}
    ptype = None
    if kind == 'pub-id':
        ptype = rng.choice(PUB_TYPES)
        if ptype:
            attrs['pub-id-type'] = ptype
    inner = targeted(rng, kind, ptype) if rng.random() < 0.75 else text(rng)
    if kind == 'ext-link':
        attrs['ext-link-type'] = 'uri'
        href = rng.choice([inner, inner, inner, inner.replace('http', 'whttp').lstrip('w'), 'http://example.org/a', None])
        if href is not None:
            attrs['xlink:href'] = href
    if rng.random() < 0.1:
        attrs['id'] = 'i%d' % rng.randrange(10000)
    if rng.random() < 0.05:
        inner = ''
    xml = escape(inner)
    if depth < 2 and rng.random() < 0.25:
        stats['nested'] += 1
        xml += content(rng, depth + 1, stats, small=True)
    attr = ''.join(' %s=%s' % (k, quoteattr(v)) for k, v in attrs.items())
    return '<%s%s>%s</%s>' % (kind, attr, xml, kind)


def content(rng, depth, stats, small=False):
    parts = []
    for _ in range(rng.choice([1, 1, 2]) if small else rng.choice([1, 2, 3, 4, 6, 8])):
        if rng.random() < 0.5:
            parts.append(escape(text(rng)))
        parts.append(element(rng, depth, stats))
    if rng.random() < 0.7:
        parts.append(escape(text(rng)))
    return ''.join(parts)


def reference(rng, i, stats):
    attrs = ' id="ref%d"' % i if rng.random() < 0.9 else ''
    label = '<label>%d</label>' % i if rng.random() < 0.5 else ''
    out = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        tag = rng.choice(['mixed-citation'] * 4 + ['element-citation', 'citation'])
        lead = escape(text(rng)) if rng.random() < 0.5 else ''
        out.append('<%s>%s%s</%s>' % (tag, lead, content(rng, 0, stats), tag))
    gap = rng.choice(['', '\n', '  ', ' PMID: 5 '])
    return '<ref%s>%s%s</ref>%s' % (attrs, label, gap.join(out), rng.choice(['', '\n', 'tail', 'doi:10.1234/tail']))


def document(rng, refs):
    decl = rng.choice(['', '<?xml version="1.0" encoding="UTF-8"?>\n', "<?xml version='1.0'?>\n"])
    doctype = rng.choice(['', '', '<!DOCTYPE article [<!ENTITY ent "entity value">]>\n'])
    front = (
        '<front><article-meta><article-id pub-id-type="DOI">doi:10.1234/self</article-id>'
        '<title-group><article-title>"Title <italic>of</italic> article", </article-title></title-group>%s</article-meta></front>' % rng.choice([
            '', '<custom-meta-group><custom-meta><meta-name>x</meta-name><meta-value>PMC77</meta-value></custom-meta></custom-meta-group>']))
    body = ('<body><sec><title>Intro</title><p>See <ext-link xlink:href="http://a.orghttp://b.org">http://a.orghttp://b.org</ext-link> and '
            'PMID: 99 <xref ref-type="bibr" rid="ref1">[1]</xref>%s</p></sec></body>' % (
                ' &ent;' if doctype else ''))
    return '%s%s<article xmlns:xlink="%s">%s%s<back>%s<ref-list>%s</ref-list></back></article>\n' % (
        decl, doctype, jats.XLINK, front, body, rng.choice(['', '<ack><p>PMC55 thanks</p></ack>']), '<title>References</title>\n' + ''.join(refs))


def setup_worker():
    jats.module()


def run_case(ctx):
    rng = ctx.rng
    from collections import Counter
    stats = Counter()
    refs = [reference(rng, i, stats) for i in range(1, rng.choice([2, 3, 4, 6]))]
    data = document(rng, refs).encode('utf-8')
    ctx.event('nested', stats['nested'])
    before = jats.parse(data).getroot()
    error, out = jats.fix_text(ctx, data)
    ctx.event('documents')
    if not ctx.require(error is None, 'command-failed', error=repr(error), source=data):
        return
    if not ctx.require(out is not None, 'output-missing', source=data):
        return
    try:
        after = jats.parse(out).getroot()
    except Exception as exc:  # pylint: disable=broad-except
        ctx.violation('output-unreadable', error=repr(exc), source=data, output=out)
        return
    jats.without_meta(after)
    old_refs = jats.refs(before)
    new_refs = jats.refs(after)
    ctx.event('references', len(old_refs))
    if ctx.require(len(old_refs) == len(new_refs), 'references-lost', source=data, output=out):
        for old, new in zip(old_refs, new_refs):
            if jats.canonical(old) == jats.canonical(new):
                continue
            ctx.event('changed-references')
            ctx.distinct(jats.canonical(new))
            for tag in ('ext-link', 'pub-id'):
                a = len(list(old.iter(tag)))
                b = len(list(new.iter(tag)))
                ctx.event('new-' + tag, max(0, b - a))
                ctx.event('removed-' + tag, max(0, a - b))
            ctx.require(jats.stream(old) == jats.stream(new), 'reference-text-changed',
                        before=repr(jats.stream(old)), after=repr(jats.stream(new)), old=jats.etree.tostring(old), new=jats.etree.tostring(new))
    a = jats.stream(before)
    ctx.event('characters', sum(len(s) for s in a if isinstance(s, str)))
    ctx.require(a == jats.stream(after), 'text-changed', source=data, output=out)

"""C02 everything outside the labelled container, and the line structure, is kept"""
import os

from vf import gen, hostile, pipes, tei, work

RULE = (
    'random training documents of all 8 commands whose surroundings (other elements, '
    'attributes, comments, text before and after the container) are decorated at random; '
    'monitor: the tree outside the container equals that of the source, attributes of the '
    'container included, and the line breaks sit at the same places of the text; '
    'non-trivial: the document has line breaks and decorated surroundings'
)
PLAN = {'quick': 1600, 'thorough': 50000}
REQUIRED_EVENTS = {'outside-compared': 1000, 'line-breaks': 5000}

DECOR = [
    '<note>{w}</note>', '<note n="{n}">{w}<lb/>{w2}</note>', '<!-- {w} -->', '<pb n="{n}"/>',
    '<encodingDesc><appInfo><application ident="GROBID" version="0.6.{n}"/></appInfo></encodingDesc>',
    '<extra xmlns="http://example.org/x" a="&lt;{w}&gt;">{w} &amp; {w2}</extra>',
    '<ref target="#{w}"/>', '<{w}>\u00e9\u4e2d{w2}</{w}>', '<?pi {w}?>',
]


def decor(rng, vocab):
    return ''.join(
        rng.choice(DECOR).format(w=vocab.word(), w2=vocab.word(), n=rng.randrange(9))
        for _ in range(rng.choice([0, 0, 1, 2]))
    )


def decorate(rng, vocab, pipe, xml):
    """Insert elements around, and attributes on, the ancestors of the container."""
    def d():
        return decor(rng, vocab)
    names = pipe.container
    for depth, name in enumerate(names):
        is_container = depth == len(names) - 1
        start = xml.index('<%s' % name, xml.index('<text') if name in ('front', 'back', 'listBibl') else 0)
        end = xml.index('>', start)
        if xml[end - 1] == '/':
            continue
        if rng.random() < 0.4:
            xml = xml[:end] + ' n="%s"' % vocab.word() + xml[end:]
            end = xml.index('>', start)
        if not is_container:
            # children before the next ancestor
            xml = xml[:end + 1] + d() + xml[end + 1:]
        xml = xml[:start] + d() + xml[start:]
        close = '</%s>' % name
        close_at = xml.rindex(close)
        if not is_container:
            xml = xml[:close_at] + d() + xml[close_at:]
            close_at = xml.rindex(close)
        after = close_at + len(close)
        tail = vocab.word() if rng.random() < 0.2 else ''
        xml = xml[:after] + tail + d() + xml[after:]
    return xml


def run_case(ctx):
    rng = ctx.rng
    pipe = pipes.PIPES[work.NAMES[ctx.index % len(work.NAMES)]]
    xml, jats = work.document(rng, pipe)
    decorated = decorate(rng, gen.Vocab(rng), pipe, xml)
    opts = hostile.options(rng, pipe.name)
    result, outs = pipes.run_documents(ctx, pipe, {'doc': (decorated, jats)}, opts)
    if result.error is not None:
        ctx.violation('command-failed', pipe=pipe.name, opts=opts, error=repr(result.error), doc=decorated)
        return
    src_root = tei.parse(os.path.join(result.src, 'doc' + pipe.suffix))
    if not os.path.exists(outs['doc']):
        ctx.violation('output-missing', pipe=pipe.name, opts=opts, doc=decorated)
        return
    try:
        out_root = tei.parse(outs['doc'])
    except Exception as e:  # pylint: disable=broad-except
        ctx.violation('output-unreadable', pipe=pipe.name, error=repr(e), doc=decorated)
        return
    expected = tei.outside_repr(src_root, pipe.container)
    actual = tei.outside_repr(out_root, pipe.container)
    ctx.event('outside-compared')
    ctx.require(expected == actual, 'outside-changed', pipe=pipe.name, opts=opts,
                expected=expected, actual=actual)
    src_flat = tei.flatten(tei.containers(src_root, pipe.container))
    out_flat = tei.flatten(tei.containers(out_root, pipe.container))
    ctx.event('line-breaks', len(src_flat.lbs))
    ctx.require(src_flat.lbs == out_flat.lbs, 'line-breaks-moved', pipe=pipe.name, opts=opts,
                expected=src_flat.lbs, actual=out_flat.lbs, doc=decorated, output=pipes.read(outs['doc']))
    if src_flat.lbs and decorated != xml:
        ctx.distinct(decorated)

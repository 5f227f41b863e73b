"""C03 the output only has labels of the command's label set"""
import os

from lxml import etree

from vf import hostile, pipes, tei, truth, work

RULE = (
    'random training documents of all 8 commands with random options; monitor walks every '
    'element and every character of the output; non-trivial: the output has at least two '
    'different labels'
)
PLAN = {'quick': 2000, 'thorough': 50000}
REQUIRED_EVENTS = {'elements-walked': 5000, 'characters-walked': 100000}

HEADER_FIELDS = [
    'title', 'abstract', 'keywords_title', 'keywords', 'manuscript_type', 'author', 'author_aff',
    'author_notes', 'journal', 'issn', 'doi', 'copyright_statement', 'email', 'page_no', 'line_no',
    'section_title', 'section_paragraph', 'body_section_title', 'back_section_title',
    'body_section_paragraph', 'back_section_paragraph', 'acknowledgment_section_title',
    'acknowledgment_section_paragraph', 'boxed_text_title', 'boxed_text_paragraph', 'list',
    'list_item', 'appendix_group_title', 'appendix', 'figure', 'body_figure', 'back_figure',
    'table', 'body_table', 'back_table', 'reference_list_title', 'reference', 'page'
]
XREFS = tuple('ref[@type="%s"]' % t for t in sorted(set(truth.XREF.values())))
P_PATHS = (('p',), ('p[@type="box"]',), ('list', 'item'))

LABELS = {
    'header': {truth.NOTE_OTHER, ('byline',)} | {truth.header_path(f) for f in HEADER_FIELDS},
    'segmentation': {
        truth.SEG_BODY, truth.SEG_FRONT, truth.SEG_ACK, truth.SEG_ANNEX, truth.SEG_PAGE,
        truth.SEG_REFS, truth.SEG_HEADNOTE, ('note[@type="line_no"]',)},
    'fulltext': {
        ('other',), ('other[@type="keywords"]',), ('head',), ('figure',), ('figure[@type="table"]',),
        ('other[@type="ref-list-title"]',), ('head[@type="appendix-group"]',),
        ('figure[@xtype="appendix"]',), ('head[@type="box"]',), ('list',),
        ('note[@type="other"]',)
    } | set(P_PATHS) | {p + (x,) for p in P_PATHS for x in XREFS},
    'reference': {truth.NOTE_OTHER, ('bibl',)} | set(truth.REF_SUB.values()),
    'reference_segmenter': {
        truth.NOTE_OTHER, ('listBibl',), ('listBibl', 'bibl'), ('listBibl', 'bibl', 'label')},
    'affiliation': {truth.NOTE_OTHER, ('affiliation',), truth.AFF_ADDRESS} | set(truth.AFF_SUB.values()),
    'figure': {
        truth.NOTE_OTHER, ('figure',), ('figure', 'head'), ('figure', 'head', 'label'), ('figure', 'figDesc')},
    'table': {
        truth.NOTE_OTHER, ('figure[@type="table"]',), ('figure[@type="table"]', 'head'),
        ('figure[@type="table"]', 'head', 'label'), ('figure[@type="table"]', 'figDesc')},
}


def prefixes(path):
    return [path[:i + 1] for i in range(len(path))]


def run_case(ctx):
    rng = ctx.rng
    pipe = pipes.PIPES[work.NAMES[ctx.index % len(work.NAMES)]]
    xml, jats = work.document(rng, pipe)
    opts = hostile.options(rng, pipe.name)
    result, outs = pipes.run_documents(ctx, pipe, {'doc': (xml, jats)}, opts)
    if result.error is not None:
        ctx.violation('command-failed', pipe=pipe.name, opts=opts, error=repr(result.error), doc=xml)
        return
    src = tei.flatten_file(os.path.join(result.src, 'doc' + pipe.suffix), pipe.container)
    if not os.path.exists(outs['doc']):
        ctx.violation('output-missing', pipe=pipe.name, opts=opts, doc=xml)
        return
    try:
        out = tei.flatten_file(outs['doc'], pipe.container)
    except Exception as e:  # pylint: disable=broad-except
        ctx.violation('output-unreadable', pipe=pipe.name, error=repr(e), doc=xml)
        return
    for node in tei.containers(tei.parse(outs['doc']), pipe.container):
        strange = [
            e.tag for e in node.iter()
            if isinstance(e.tag, str) and etree.QName(e).namespace != etree.QName(node).namespace
        ]
        ctx.require(not strange, 'label-in-other-namespace', pipe=pipe.name, opts=opts,
                    elements=strange, doc=xml, output=pipes.read(outs['doc']))
    used = {i for ids in out.ids for i in ids}
    empty = [path for path, ids in out.elements if ids[-1] not in used]
    ctx.require(not empty, 'empty-label', pipe=pipe.name, opts=opts, elements=empty, doc=xml,
                output=pipes.read(outs['doc']))
    allowed = set()
    for path in LABELS[pipe.name]:
        allowed.update(prefixes(path))
    if '--use-line-number-annotator' in opts:
        # the reference segmenter model has no label of its own for line numbers
        allowed.update([('note[@type="line_no"]',), ('line_no',)])
    existing = {p for p, _ in src.elements}
    preserving = '--no-preserve-tags' not in opts or '--preserve-sub-tags' in opts
    for path, _ in out.elements:
        ctx.event('elements-walked')
        if path in allowed:
            continue
        ctx.require(preserving and path in existing, 'label-outside-of-label-set', pipe=pipe.name, opts=opts,
                    path=path, doc=xml, output=pipes.read(outs['doc']))
    ctx.event('characters-walked', len(out.paths))
    bare = [i for i, p in enumerate(out.paths) if not p]
    ctx.require(not bare, 'text-without-label', pipe=pipe.name, opts=opts, doc=xml,
                text=out.slice_text(bare[0], bare[0] + 30) if bare else '', output=pipes.read(outs['doc']))
    if len(set(out.paths)) > 1:
        ctx.distinct(pipe.name, sorted(set(out.paths)), xml)

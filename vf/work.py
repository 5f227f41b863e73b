"""Mixed workloads for the annotation commands."""
from vf import gen, hostile, pipes, truth

TRUTH = {
    'header': truth.header_doc,
    'fulltext': truth.fulltext_doc,
    'reference': truth.reference_doc,
    'reference_segmenter': truth.reference_segmenter_doc,
    'affiliation': truth.affiliation_doc,
    'figure': truth.figure_doc,
    'table': truth.table_doc,
    'segmentation': truth.segmentation_doc,
}
NAMES = sorted(pipes.PIPES)


def existing_markup(rng, pipe_name, doc):
    """Random existing markup for a document with known labels: nothing, the
    right label, or any other one, per block."""
    rate = rng.choice([0.0, 0.0, 0.4, 1.0])
    right = rng.random() < 0.5

    def fn(block):
        if rng.random() >= rate:
            return ()
        if right and block.field is not None:
            return tuple(block.path)
        return rng.choice(hostile.MARKUP[pipe_name])
    chosen = {id(b): fn(b) for b in doc.blocks}
    return lambda block: chosen[id(block)]


def document(rng, pipe, kind=None, markup=None):
    """-> (tei xml, jats xml)"""
    kind = kind or rng.choice(['hostile', 'hostile', 'truth', 'mixed'])
    decl = rng.random() < .5
    if kind == 'hostile':
        vocab = gen.Vocab(rng)
        items, texts = hostile.container_items(
            rng, vocab, pipe.name, rng.choice([1, 3, 8, 20]), markup=markup)
        jats = hostile.jats_from_text(rng, texts)
    else:
        doc = TRUTH[pipe.name](rng)
        existing = existing_markup(rng, pipe.name, doc) if markup != 0 else None
        items = doc.items(existing=existing)
        jats = doc.jats
        if kind == 'mixed':
            # values of another kind of document cut from the same text
            jats = hostile.jats_from_text(rng, [b.text for b in doc.blocks])
    newline, lead = True, '\n'
    if rng.random() < 0.3:
        # the text ends right after its last line break or word, and starts with the element
        lead = rng.choice(['', '\n', '  '])
        newline = False
        while items and items[-1] is not gen.LB and not items[-1][2].strip():
            items = items[:-1]
        if items and rng.random() < 0.3:
            items = list(items) + [gen.LB] * rng.randint(1, 2)
    return pipes.wrap_document(
        pipe, gen.render(items, rng, trailing_newline=newline, lead=lead), rng), jats.xml(decl)

"""C22 selected fields and overrides"""
import os

from vf import gen, judge, pipes, tei, truth
from vf.checks import c21

RULE = (
    'documents with known labels of header, fulltext, affiliation, figure, table and segmentation, annotated with random selections of fields '
    '(--fields a,b / +a / -a) and sub fields, and with mapping overrides (other path for a field, changed or switched off settings); oracle: the known labels with '
    'those of unselected fields and sub fields taken away, per character; a run without the options right before or after in the same process has the full labels; '
    'plus the values read from generated documents and mappings with and without selection (selected ones equal, no others); '
    'non-trivial: something selected and something not'
)
PLAN = {'quick': 3000, 'thorough': 40000}
REQUIRED_EVENTS = {
    'fields:header': 100, 'fields:fulltext': 100, 'fields:segmentation': 60, 'sub-fields:affiliation': 60, 'sub-fields:figure': 60, 'sub-fields:table': 60,
    'sub-fields:fulltext': 60, 'plus-minus': 100, 'override:path': 60, 'override:setting': 60, 'full-run': 150, 'values': 150, 'values-sub': 100,
    'taken-away': 20000, 'kept': 50000, 'sub-setting': 50,
}
HEADER = ['title', 'author', 'author_aff', 'abstract', 'keywords', 'email', 'doi', 'journal', 'keywords_title']
FULLTEXT = ['section_title', 'section_paragraph', 'boxed_text_title', 'boxed_text_paragraph', 'list', 'list_item', 'appendix_group_title', 'appendix',
            'figure', 'table', 'reference_list_title', 'keywords']
XREF_SUB = {'biblio': 'bib', 'figure': 'figure', 'table': 'table', 'formula': 'formula', 'section': 'section', 'box': 'box'}
SEG_PART = {  # fields of the regions
    'references': ['reference', 'reference_list_title'],
    'annex': ['appendix', 'appendix_group_title', 'back_section_title', 'back_section_paragraph'],
    'acknowledgment': ['acknowledgment_section_title', 'acknowledgment_section_paragraph'],
}


def setup_worker():
    for name in ('header', 'fulltext', 'affiliation', 'figure', 'table', 'segmentation'):
        pipes.PIPES[name].module  # noqa  pylint: disable=expression-not-assigned


def selection(rng, ctx, names, option):
    """-> (selected, arguments)"""
    selected = set(rng.sample(names, rng.randint(1, len(names))))
    return selected, [option + '=' + rng.choice([',', ', ']).join(rng.sample(sorted(selected), len(selected)))]


def difference(rng, ctx, names, option):
    """all but some, written with minus"""
    dropped = rng.sample(names, rng.randint(1, max(1, len(names) - 1)))
    ctx.event('plus-minus')
    text = '-' + rng.choice([',', ',-']).join(dropped)
    return set(names) - set(dropped), ['%s=%s' % (option, text)]


def excerpt(flat, i):
    return flat.slice_text(max(0, i - 20), min(len(flat.chars), i + 40))


def judged(ctx, doc, opts, paths, what, known=None, **more):
    """run and compare all labels"""
    pipe = pipes.PIPES[doc.pipe_name]
    case = judge.Case(pipe, doc, opts, None, [])
    flat, chars, full, _ = judge.run(ctx, case)
    if flat is None:
        return False
    expected = full if paths is None else paths
    wrong = [i for i in range(len(chars)) if flat.paths[i] != expected[i]]
    if wrong and known and all(known(i, flat.paths[i]) for i in wrong):
        what = known.__name__.replace('_', '-')
    if not ctx.require(
            not wrong, what, pipe=pipe.name, opts=opts, text=excerpt(flat, wrong[0]) if wrong else '',
            expected=expected[wrong[0]] if wrong else '', actual=flat.paths[wrong[0]] if wrong else '', jats=case.jats, output=case.output, **more):
        return False
    if paths is not None:
        ctx.event('taken-away', sum(1 for a, b in zip(full, paths) if a != b))
        ctx.event('kept', sum(1 for a, b in zip(full, paths) if a == b))
    return True


def full_run(ctx, doc, opts):
    if ctx.rng.random() < 0.3:
        ctx.event('full-run')
        return judged(ctx, doc, opts, None, 'full-run-differs')
    return True


def lists_run_together(doc, selected):
    """nothing but unlabelled text between the items of two lists: they become one list"""
    gap = None
    for b in doc.blocks:
        if b.field == 'list_item':
            if gap:
                return True
            gap = []
        elif b.field in selected:
            gap = None
        elif gap is not None:
            gap.append(b)
    return False


def case_fields(ctx, name):
    rng = ctx.rng
    doc = truth.header_doc(rng) if name == 'header' else truth.fulltext_doc(rng)
    names = HEADER if name == 'header' else FULLTEXT
    opts = ['--no-preserve-tags'] if rng.random() < 0.5 else []
    if name == 'fulltext' and rng.random() < 0.4:
        selected, args = difference(rng, ctx, names, '--fields')
    else:
        selected, args = selection(rng, ctx, names, '--fields')
    paths = []
    _, full, owner = doc.expected()
    for path, o in zip(full, owner):
        field = doc.blocks[o].field
        paths.append(path if field is None or field in selected else doc.default_path)
    if 'list_item' in selected and lists_run_together(doc, selected):
        return
    if not full_run(ctx, doc, opts):
        return
    if not judged(ctx, doc, opts + args, paths, 'selection-not-as-expected', selected=sorted(selected)):
        return
    ctx.event('fields:' + name)
    full_run(ctx, doc, opts)
    if len(set(paths)) > 1 and paths != full:
        ctx.distinct(name, sorted(selected), doc.expected()[0])


def case_fulltext_sub_fields(ctx):
    rng = ctx.rng
    doc = truth.fulltext_doc(rng)
    names = ['%s-xref-%s' % (f, k) for f in ('section_paragraph', 'boxed_text_paragraph', 'list_item') for k in sorted(set(XREF_SUB.values()))]
    # (the default lists contain the names of the fields as well)
    selected, args = (difference if rng.random() < 0.5 else selection)(rng, ctx, names, '--sub-fields')
    paths = []
    _, full, owner = doc.expected()
    for path, o in zip(full, owner):
        block = doc.blocks[o]
        if path != block.path and path[-1].startswith('ref['):
            kind = path[-1].split('"')[1]
            if '%s-xref-%s' % (block.field, XREF_SUB[kind]) not in selected:
                path = block.path
        paths.append(path)
    if not full_run(ctx, doc, []):
        return
    if judged(ctx, doc, args, paths, 'selection-not-as-expected', selected=sorted(selected)):
        ctx.event('sub-fields:fulltext')
        if paths != full:
            ctx.distinct('fulltext-sub', sorted(selected), doc.expected()[0])


AFF_KINDS = {
    'label': 'author_aff-label', 'institution': 'author_aff-institution', 'department': 'author_aff-department',
    'city': 'author_aff-address-city', 'postcode': 'author_aff-address-postcode',
    'state': 'author_aff-address-state', 'country': 'author_aff-address-country'
}


def case_sub_fields(ctx, name):
    rng = ctx.rng
    if name == 'affiliation':
        doc = truth.affiliation_doc(rng)
        field_by_path = {truth.AFF_SUB[k]: f for k, f in AFF_KINDS.items() if k in truth.AFF_SUB}
        opts = ['--segment-affiliation']
    else:
        doc = truth.figure_doc(rng) if name == 'figure' else truth.table_doc(rng)
        base = doc.blocks[0].path
        field_by_path = {base + ('head', 'label'): name + '-label', base + ('figDesc',): name + '-caption'}
        opts = ['--segment-figures' if name == 'figure' else '--segment-tables']
    names = sorted(field_by_path.values())
    selected, args = selection(rng, ctx, names, '--sub-fields')
    chars, full, owner = doc.expected()
    paths = [p if p not in field_by_path or field_by_path[p] in selected else doc.blocks[o].path for p, o in zip(full, owner)]
    if name == 'affiliation':
        # text between two address parts, and no other text, belongs to the address
        i = 0
        while i < len(paths):
            j = i
            while j < len(paths) and owner[j] == owner[i] and paths[j] in (('affiliation',), truth.AFF_ADDRESS):
                j += 1
            if j > i:
                inside = i > 0 and j < len(paths) and owner[i - 1] == owner[i] == owner[j] and all(
                    paths[k][:2] == truth.AFF_ADDRESS for k in (i - 1, j))
                paths[i:j] = [truth.AFF_ADDRESS if inside else ('affiliation',)] * (j - i)
            i = max(j, i + 1)
    if not full_run(ctx, doc, opts):
        return

    def label_left_out_without_its_sub_field(i, actual):
        return name == 'affiliation' and 'author_aff-label' not in selected and full[i] == truth.AFF_SUB['label'] and actual == doc.default_path
    if judged(ctx, doc, opts + args, paths, 'selection-not-as-expected', known=label_left_out_without_its_sub_field, selected=sorted(selected)):
        ctx.event('sub-fields:' + name)
        full_run(ctx, doc, opts)
        if paths != full:
            ctx.distinct(name, sorted(selected), chars)


def case_segmentation(ctx):
    """without the fields of a region there is no such region, and the others are as before"""
    rng = ctx.rng
    doc = truth.segmentation_doc(rng)
    part = rng.choice(sorted(SEG_PART))
    label = {'references': truth.SEG_REFS, 'annex': truth.SEG_ANNEX, 'acknowledgment': truth.SEG_ACK}[part]
    args = ['--no-preserve-tags', '--fields=-' + ',-'.join(SEG_PART[part])]
    ctx.event('plus-minus')
    case = judge.Case(pipes.PIPES['segmentation'], doc, args, None, [])
    flat, chars, full, owner = judge.run(ctx, case)
    if flat is None:
        return
    for i, path in enumerate(flat.paths):
        field = doc.blocks[owner[i]].field
        if field in SEG_PART[part] or full[i] == label:
            ok = path != label
            ctx.event('taken-away')
        elif field is not None:
            # (a value is only in the front if it is not too far from the start, which does not change)
            ok = path == full[i]
            ctx.event('kept')
        else:
            ok = path != label
        if not ctx.require(ok, 'selection-not-as-expected', pipe='segmentation', opts=args, text=excerpt(flat, i), expected=full[i],
                           actual=path, jats=case.jats, output=case.output):
            return
    ctx.event('fields:segmentation')
    if label in full:
        ctx.distinct('segmentation', part, chars)


def case_override_path(ctx):
    """the values of a field come from another element, everything else as before"""
    rng = ctx.rng
    doc = truth.header_doc(rng)
    v = gen.Vocab(rng)
    v.used = {w[:5].lower() for b in doc.blocks for w in b.text.split()}
    field = rng.choice(['title', 'abstract', 'keywords_title'])
    text = v.phrase(rng.randint(3, 9))
    block = truth.Block('#other', [text], doc.default_path)
    doc.blocks.insert(rng.choice([0, len(doc.blocks)]), block)
    doc.jats.article_meta.append(gen.El('custom', text, kind='x') if rng.random() < 0.5 else gen.El('custom', gen.El('italic', text), kind='x'))
    _, full, owner = doc.expected()
    paths = []
    for p, o in zip(full, owner):
        f = doc.blocks[o].field
        paths.append(truth.header_path(field) if f == '#other' else doc.default_path if f == field else p)
    value = rng.choice(['front/article-meta/custom', './/custom', '//custom[@kind="x"]', 'front/article-meta/custom[@kind="x"]'])
    args = ['--xml-mapping-overrides=%s%s%s' % (field, rng.choice(['=', ' = ']), value)]
    if rng.random() < 0.3:
        args[0] += '|%s.extend-to-line=true' % field
    opts = ['--no-preserve-tags'] if rng.random() < 0.5 else []
    if not full_run(ctx, doc, opts):
        return
    if judged(ctx, doc, opts + args, paths, 'override-not-as-expected'):
        ctx.event('override:path')
        full_run(ctx, doc, opts)
        ctx.distinct('override', field, value, doc.expected()[0])


def case_override_setting(ctx):
    """a setting of one field changes nothing but that"""
    rng = ctx.rng
    if rng.random() < 0.5:
        # section titles without their numbers: the number is not part of the value any more
        # (the label still goes to the whole line, which is a setting of its own)
        doc = truth.fulltext_doc(rng)
        args = ['--xml-mapping-overrides=section_title.children.concat=[]|section_title.extend-to-line=false']
        _, full, owner = doc.expected()
        paths = list(full)
        seen = {}
        for i, o in enumerate(owner):
            b = doc.blocks[o]
            number = b.text.split(' ')[0]
            if b.field == 'section_title' and number.rstrip('.').isdigit():
                k = seen[o] = seen.get(o, -1) + 1
                if k < len(number):
                    paths[i] = doc.default_path
    else:
        # no regular expression for the word before an abstract
        doc = truth.header_doc(rng)
        args = ['--xml-mapping-overrides=abstract.match-prefix-regex=']
        _, full, owner = doc.expected()
        paths = list(full)
        seen = {}
        for i, o in enumerate(owner):
            b = doc.blocks[o]
            if b.field == 'abstract' and b.lines[0] in ('Abstract', 'ABSTRACT', 'Summary'):
                k = seen[o] = seen.get(o, -1) + 1
                if k < len(b.lines[0]):
                    paths[i] = doc.default_path
    if not full_run(ctx, doc, []):
        return
    if judged(ctx, doc, args, paths, 'override-not-as-expected'):
        ctx.event('override:setting')
        full_run(ctx, doc, [])
        if paths != full:
            ctx.distinct('setting', doc.expected()[0])


def shown(annotations):
    return [(a.name, a.value, a.match_multiple, a.bonding, a.require_next, [(s.name, s.value) for s in a.sub_annotations or []]) for a in annotations]


def case_values(ctx):
    """values read from the target document with a selection are the selected ones of those read without"""
    from sciencebeam_trainer_grobid_tools import auto_annotate_utils
    from sciencebeam_trainer_grobid_tools.annotation.target_annotation import xml_root_to_target_annotations
    from sciencebeam_trainer_grobid_tools.utils.xml import parse_xml
    rng = ctx.rng
    d = ctx.new_dir()
    if rng.random() < 0.6:
        g = c21.Generic(rng, ctx)
        g.make_fields()
        root, _ = g.build()
        for f in g.fields:
            for name, _ in f['subs']:
                if rng.random() < 0.5:
                    ctx.event('sub-setting')
                    g.mapping['%s.sub.%s.extract-regex' % (f['name'], name)] = r'\b(\w+)\b\s'
        mapping_path = os.path.join(d, 'mapping.conf')
        with open(mapping_path, 'w', encoding='utf-8') as f:
            f.write(g.config())
        names = [f['name'] for f in g.fields]
        subs = [n for f in g.fields for n, _ in f['subs']]
    else:
        root = c21.Article(rng).build()
        mapping_path = pipes.CONFIG
        names = c21.DEFAULT_ORDER
        subs = sorted(set(AFF_KINDS.values()) | {'figure-label', 'figure-caption', 'table-label', 'table-caption', 'reference-year', 'reference-doi'} | {
            'section_paragraph-xref-' + k for k in XREF_SUB.values()})
    path = os.path.join(d, 'target.xml')
    pipes.write(path, c21.Writer(rng, rng.random() < 0.3, ctx).document(root))
    xml_root = parse_xml(path).getroot()

    def values(fields, sub_fields=None, overrides=None):
        mapping, _ = auto_annotate_utils.get_xml_mapping_and_fields(mapping_path, fields, sub_fields=sub_fields, xml_mapping_overrides=overrides)
        return shown(xml_root_to_target_annotations(xml_root, mapping))
    full = values(None)
    selected = set(rng.sample(names, rng.randint(1, len(names))))
    sub_fields = None
    if subs and rng.random() < 0.7:
        sub_fields = set(rng.sample(subs, rng.randint(1, len(subs))))
        ctx.event('values-sub')
    got = values(selected, sub_fields)
    want = [a[:-1] + ([s for s in a[-1] if sub_fields is None or s[0] in sub_fields],) for a in full if a[0] in selected]
    if not ctx.require(got == want, 'selected-values-differ', selected=sorted(selected), sub_fields=sorted(sub_fields or []), expected=repr(want),
                       actual=repr(got), xml=pipes.read(path)):
        return
    # an override of the priority of one field reorders, and changes nothing else
    field = rng.choice(names)
    got = values(None, None, {field + '.priority': '9'})
    want = [a for a in full if a[0] == field] + [a for a in full if a[0] != field]
    ctx.require(got == want, 'override-changes-values', field=field, expected=repr(want), actual=repr(got), xml=pipes.read(path))
    ctx.require(values(None) == full, 'full-values-differ', xml=pipes.read(path))
    ctx.event('values')
    if full:
        ctx.distinct('values', sorted(selected), pipes.read(path))


CASES = [
    lambda ctx: case_fields(ctx, 'header'), lambda ctx: case_fields(ctx, 'fulltext'), case_fulltext_sub_fields,
    lambda ctx: case_sub_fields(ctx, 'affiliation'), lambda ctx: case_sub_fields(ctx, 'figure'), lambda ctx: case_sub_fields(ctx, 'table'),
    case_segmentation, case_override_path, case_override_setting, case_values, case_values,
]


def run_case(ctx):
    CASES[ctx.index % len(CASES)](ctx)

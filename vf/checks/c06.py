"""C06 preservation of existing labels according to the options"""
from vf import gen, judge, pipes, tei, truth, work

RULE = (
    'documents with known values and existing labels on whole blocks, on parts of lines and on parts '
    'of entries, run with random combinations of field selection and preservation options; monitor '
    'compares the label of every character with the one the options ask for; non-trivial: at least one '
    'existing label'
)
PLAN = {'quick': 4500, 'thorough': 40000}
REQUIRED_EVENTS = {
    'existing-kept': 300, 'existing-removed': 300, 'existing-replaced': 100, 'kept-characters': 20000,
    'sub-kept': 200, 'sub-removed': 200, 'sub-replaced': 200, 'existing-beyond-value': 40, 'entry-removed': 100}

# existing label -> field it is the label of (None: the model has no field for it)
HEADER_EXISTING = {
    ('docTitle', 'titlePart'): 'title', ('div[@type="abstract"]',): 'abstract',
    ('byline', 'docAuthor'): 'author', ('byline', 'affiliation'): 'author_aff',
    ('note[@type="line_no"]',): 'line_no', ('note[@type="keywords"]',): 'keywords',
    ('note[@type="doi"]',): 'doi', ('date',): None, ('div[@type="intro"]',): None,
    ('note[@type="other"]',): '', ('note[@type="submission"]',): None,
}
FULLTEXT_EXISTING = {
    ('head',): 'section_title', ('p',): 'section_paragraph', ('figure',): 'figure',
    ('figure[@type="table"]',): 'table', ('formula',): None, ('p[@type="box"]',): 'boxed_text_paragraph',
    ('head[@type="box"]',): 'boxed_text_title', ('other[@type="ref-list-title"]',): 'reference_list_title',
    ('other[@type="keywords"]',): 'keywords', ('note[@place="x"]',): None, ('other',): '',
    ('head[@type="appendix-group"]',): 'appendix_group_title', ('figure[@xtype="appendix"]',): 'appendix',
}
FULLTEXT_FIELDS = [
    'keywords', 'section_title', 'section_paragraph', 'boxed_text_title', 'boxed_text_paragraph',
    'list', 'list_item', 'appendix_group_title', 'appendix', 'figure', 'table', 'reference_list_title']
HEADER_FIELDS = ['title', 'abstract', 'author', 'author_aff', 'keywords']

AFF_FIELD = {
    'label': 'author_aff-label', 'department': 'author_aff-department',
    'institution': 'author_aff-institution', 'city': 'author_aff-address-city',
    'postcode': 'author_aff-address-postcode', 'state': 'author_aff-address-state',
    'country': 'author_aff-address-country',
}


def run_case(ctx):
    kind = ('header', 'fulltext', 'affiliation', 'figure', 'table', 'header')[ctx.index % 6]
    if kind in ('header', 'fulltext'):
        _main_level(ctx, kind)
    else:
        _sub_level(ctx, kind)


def _check(ctx, pipe, doc, items, opts, expected, what, owners):
    xml = pipes.wrap_document(pipe, gen.render(items), ctx.rng)
    jats = doc.jats.xml()
    result, outs = pipes.run_documents(ctx, pipe, {'doc': (xml, jats)}, opts)
    if result.error is not None:
        ctx.violation('command-failed', pipe=pipe.name, opts=opts, error=repr(result.error), doc=xml, jats=jats)
        return
    try:
        flat = tei.flatten_file(outs['doc'], pipe.container)
    except Exception as e:  # pylint: disable=broad-except
        ctx.violation('output-unreadable', pipe=pipe.name, opts=opts, error=repr(e), doc=xml)
        return
    chars = ''.join(c for c, _ in expected)
    if flat.dense != chars:
        ctx.violation('text-changed', pipe=pipe.name, opts=opts, expected=chars, actual=flat.dense)
        return
    wrong = [i for i, (_, p) in enumerate(expected) if flat.paths[i] != p]
    if wrong:
        # text between two lists with nothing else in between may be taken as one list
        open_ = _between_lists(expected)
        wrong = [i for i in wrong if not (i in open_ and flat.paths[i] == ('list',))]
    ctx.require(
        not wrong, 'label-not-as-options-say', pipe=pipe.name, opts=opts, what=what,
        text=flat.slice_text(max(0, wrong[0] - 20), wrong[0] + 40) if wrong else '',
        expected=expected[wrong[0]][1] if wrong else '', actual=flat.paths[wrong[0]] if wrong else '',
        doc=xml, jats=jats, output=pipes.read(outs['doc']))
    if wrong:
        return
    # a label that is kept stays one element, and does not become one with another
    of_owner, of_element = {}, {}
    for i, owner in enumerate(owners):
        if owner is None:
            continue
        ctx.event('kept-characters')
        if of_owner.setdefault(owner, flat.ids[i]) != flat.ids[i] or of_element.setdefault(flat.ids[i], owner) != owner:
            ctx.violation(
                'kept-element-changed', pipe=pipe.name, opts=opts, what=what, path=flat.paths[i],
                text=flat.slice_text(max(0, i - 20), i + 40), doc=xml, jats=jats, output=pipes.read(outs['doc']))
            return


def _between_lists(expected):
    out, run, after_list = set(), [], False
    for i, (_, path) in enumerate(expected):
        if path and path[0] == 'list':
            if after_list:
                out.update(run)
            after_list, run = True, []
        elif path == ('other',):
            run.append(i)
        else:
            after_list, run = False, []
    return out


def _own_letters(doc):
    """Names that cannot be looked for where they are (that text is kept as it is) must not
    happen to be similar to other text."""
    for block in doc.blocks:
        if block.field == 'author':
            block.lines = [judge.foreign(line) for line in block.lines]
    todo = list(doc.jats.article_meta)
    while todo:
        e = todo.pop()
        if not isinstance(e, gen.El):
            continue
        if e.tag in ('surname', 'given-names'):
            e.children = [judge.foreign(c) for c in e.children]
        todo += e.children


def _main_level(ctx, name):
    rng = ctx.rng
    pipe = pipes.PIPES[name]
    doc = work.TRUTH[name](rng)
    _own_letters(doc)
    existing = HEADER_EXISTING if name == 'header' else FULLTEXT_EXISTING
    all_fields = HEADER_FIELDS if name == 'header' else FULLTEXT_FIELDS
    default = doc.default_path
    opts = []
    # -- options
    fields = None
    if rng.random() < 0.6:
        fields = set(rng.sample(all_fields, rng.randint(1, len(all_fields))))
        opts += ['--fields', ','.join(sorted(fields))]
    if name == 'fulltext':
        # parts of paragraphs are not the subject here
        for b in doc.blocks:
            b.spans = []
        opts += ['--sub-fields', 'figure-label']
    annotated = fields if fields is not None else set(all_fields)
    replaced = fields if fields is not None else (set() if name == 'header' else set(all_fields))
    mode = rng.choice(['default', 'default', 'off', 'always', 'always-off'])
    always = set()
    if mode in ('off', 'always-off'):
        opts.append('--no-preserve-tags')
    if mode.startswith('always'):
        always = set(rng.sample(all_fields, rng.randint(1, 3)))
        if name == 'header' and 'keywords' not in annotated:
            # a field without a label of its own in this run has nothing to preserve
            always = always - {'keywords'} or {'title'}
        opts += ['--always-preserve-fields', ','.join(sorted(always))]
    # -- existing labels
    rate = rng.choice([0.3, 0.7, 1.0])
    labels = sorted(existing)
    items, expected, owners = [], [], []
    used = False
    for bi, block in enumerate(doc.blocks):
        label, part = None, None
        if rng.random() < rate:
            label = tuple(block.path) if rng.random() < 0.3 and tuple(block.path) in existing else rng.choice(labels)
            used = True
            # (an always preserved label extends to the rest of its line, like a matched value)
            if existing[label] not in always and len(block.lines) == 1 and block.field is None \
                    and len(block.lines[0].split()) > 3 and rng.random() < 0.5:
                words = block.lines[0].split(' ')
                a = rng.randrange(1, len(words) - 1)
                b = rng.randrange(a + 1, len(words) + 1)
                part = (len(' '.join(words[:a])) + 1, len(' '.join(words[:b])))
        # what the options ask for
        field = block.field
        matched = field is not None and field in annotated
        kept_path = None
        if label is not None:
            f = existing[label]
            if mode.startswith('always'):
                keep = f in always
            elif mode == 'off':
                keep = False
            else:
                keep = f not in replaced
            if f == '':
                keep = False
            if keep and f in always:
                matched = False
            if keep and not matched:
                kept_path = label
                ctx.event('existing-kept')
            elif matched:
                ctx.event('existing-replaced')
            else:
                ctx.event('existing-removed')
        base = tuple(block.path) if matched else default
        lines = list(block.lines)
        if label == tuple(block.path) and matched and part is None and keep and mode == 'default' and rng.random() < 0.5:
            # the existing label goes beyond the value that is found in it
            ctx.event('existing-beyond-value')
            more = judge.foreign('lorem ipsum dolor sit amet').split(' ')
            if rng.random() < 0.5:
                lines[0] = ' '.join(more[:rng.randint(1, 5)] + [lines[0]])
            else:
                lines[-1] = ' '.join([lines[-1]] + more[:rng.randint(1, 5)])
        if label is not None and part is None and rng.random() < 0.2:
            # blank lines at the start of the element
            items.append((label, bi, ''))
            for _ in range(rng.randint(1, 3)):
                items += [gen.LB, (label, bi, '\n')]
        for li, line in enumerate(lines):
            for ci, c in enumerate(line):
                inside = part is None or part[0] <= ci < part[1]
                if not c.isspace():
                    expected.append((c, kept_path if kept_path and inside else base))
                    owners.append(bi if kept_path and inside else None)
            if label is None:
                items.append(((), -1, line))
            elif part is None:
                items.append((label, bi, line))
            else:
                items.append(((), -1, line[:part[0]]))
                items.append((label, bi, line[part[0]:part[1]]))
                items.append(((), -1, line[part[1]:]))
            items.append(gen.LB)
            last = li == len(block.lines) - 1
            items.append((() if last or label is None else label, -1 if last or label is None else bi, '\n'))
    _check(ctx, pipe, doc, items, opts, expected, mode, owners)
    if used:
        ctx.distinct(name, mode, sorted(fields or []), sorted(always), doc.expected()[0])


def _sub_level(ctx, name):
    rng = ctx.rng
    pipe = pipes.PIPES[name]
    v = gen.Vocab(rng)
    doc = truth.Doc(name, truth.NOTE_OTHER)
    entries = []     # list of list of (text, kind or None)
    # entries are marked anew: those that are not in the target document lose their labels
    segment = rng.random() < 0.35
    absent = set()
    if name == 'affiliation':
        contrib = gen.El('contrib-group')
        for i in range(rng.randint(1, 3)):
            parts = truth.affiliation_parts(rng, v, label=str(i + 1) if rng.random() < 0.5 else None)
            if segment and rng.random() < 0.4:
                absent.add(i)
            else:
                contrib.children.append(truth.aff_element(parts))
            entries.append([(t, k) for k, t in parts])
        doc.jats.article_meta.append(contrib)
        paths, field_of = dict(truth.AFF_SUB), dict(AFF_FIELD)
        main = ('affiliation',)
        # labels of existing parts that no field has
        foreign = {'institution': ('affiliation', 'orgName[@type="laboratory"]'),
                   'city': ('affiliation', 'address', 'addrLine')}
    else:
        tag = 'fig' if name == 'figure' else 'table-wrap'
        main = ('figure',) if name == 'figure' else ('figure[@type="table"]',)
        for i in range(rng.randint(1, 3)):
            label = '%s %d.' % ('Figure' if tag == 'fig' else 'Table', i + 1)
            caption = v.paragraph(rng.randint(1, 2))
            entries.append([(label, 'label'), (' ', None), (caption, 'caption')])
            if segment and rng.random() < 0.4:
                absent.add(i)
            else:
                doc.jats.body.append(gen.El(tag, gen.El('label', label), gen.El('caption', gen.El('p', caption))))
        paths = {'label': main + ('head', 'label'), 'caption': main + ('figDesc',)}
        field_of = {'label': name + '-label', 'caption': name + '-caption'}
        foreign = {'caption': main + ('trash',)}
    opts = [judge.SEGMENT_OPTION[name]] if segment else []
    sub_fields = None
    if rng.random() < 0.7:
        sub_fields = set(rng.sample(sorted(field_of.values()), rng.randint(1, len(field_of))))
        if segment:
            # (known finding of C22: a label is otherwise not part of the entry that is looked for)
            sub_fields.add(field_of['label'])
        opts += ['--sub-fields', ','.join(sorted(sub_fields))]
    preserve = rng.random() < 0.7
    dropped = set()
    if preserve:
        opts.append('--preserve-sub-tags')
        if rng.random() < 0.5:
            dropped = set(rng.sample(sorted(field_of.values()), rng.randint(1, 2)))
            opts += ['--no-preserve-sub-fields', ','.join(sorted(dropped))]
    if rng.random() < 0.3:
        opts.append('--no-preserve-tags')
    items, expected, owners = [], [], []
    for ei, parts in enumerate(entries):
        final, exist, kept = [], [], set()
        for text, kind in parts:
            if kind is None:
                final.append(None)
                exist.append(None)
                continue
            have = None
            if rng.random() < 0.6:
                have = foreign[kind] if kind in foreign and rng.random() < 0.3 else paths[kind]
            exist.append(have)
            new = sub_fields is None or field_of[kind] in sub_fields
            if new:
                final.append(paths[kind])
                ctx.event('sub-replaced', 1 if have else 0)
            elif have and preserve and not (have == paths[kind] and field_of[kind] in dropped):
                kept.add(len(final))
                final.append(have)
                ctx.event('sub-kept')
            else:
                final.append(None)
                ctx.event('sub-removed', 1 if have else 0)
        if ei in absent:
            ctx.event('entry-removed', any(exist))
        for i, (text, kind) in enumerate(parts):
            if ei in absent:
                expected += [(c, truth.NOTE_OTHER) for c in text if not c.isspace()]
                owners += [None for c in text if not c.isspace()]
                continue
            path = final[i] or main
            if final[i] is None and name == 'affiliation':
                if kind is None and 0 < i < len(parts) - 1:
                    l, r = final[i - 1], final[i + 1]
                    if l and r and l[:2] == truth.AFF_ADDRESS and r[:2] == truth.AFF_ADDRESS:
                        path = truth.AFF_ADDRESS
            for c in text:
                if not c.isspace():
                    expected.append((c, path))
                    owners.append((ei, i) if i in kept else None)
        # rendering, wrapped at blanks
        width, col = rng.randint(30, 90), 0
        for i, (text, kind) in enumerate(parts):
            path = exist[i] or main
            words = text.split(' ')
            if exist[i] and rng.random() < 0.1:
                for _ in range(rng.randint(1, 3)):
                    items += [(path, ei, ''), gen.LB, (path, ei, '\n')]
            for wi, w in enumerate(words):
                if wi and col > width:
                    items.append((path, ei, ''))
                    items.append(gen.LB)
                    items.append((path, ei, '\n'))
                    col = 0
                elif wi:
                    items.append((path, ei, ' '))
                if w:
                    items.append((path, ei, w))
                col += len(w) + 1
        items.append((main, ei, ''))
        items.append(gen.LB)
        items.append(((), -1, '\n'))
    # gaps between unlabelled address parts: text between two address parts that are not
    # neighbours of a separator is left to the oracle above only if directly adjacent
    if name == 'affiliation':
        expected = _address_groups(expected, entries)
    _check(ctx, pipe, doc, items, opts, expected, 'sub', owners)
    ctx.distinct(name, opts, entries)


def _address_groups(expected, entries):
    """Everything between two labelled address parts of one entry, with no other labelled
    part in between, is part of the address."""
    out = list(expected)
    pos = 0
    for parts in entries:
        n = sum(1 for t, _ in parts for c in t if not c.isspace())
        idx = range(pos, pos + n)
        last_addr = None
        for i in idx:
            path = out[i][1]
            if path[:2] == truth.AFF_ADDRESS:
                if last_addr is not None:
                    for k in range(last_addr + 1, i):
                        out[k] = (out[k][0], truth.AFF_ADDRESS)
                last_addr = i
            elif len(path) > 1:
                last_addr = None
        pos += n
    return out

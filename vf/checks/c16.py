"""C16 the JATS fixing command as a batch: files, schedules, repeated runs"""
import gzip
import os
import re
import shutil
import tempfile

from vf import core, jats
from vf.checks import c14, c15
from vf.delays import Delays

RULE = (
    'directory trees of JATS files (nested, compressed, equal names in different directories, other files, different encodings), '
    'selected by single path, pattern, plain, csv or tsv list, with limits, some with files that cannot be read, with 1-8 threads under injected '
    'delays or worker processes; then the same again, and the command on its own output; monitors: inputs unchanged byte by byte, output '
    'set, each output equal to the one of a run of its own, no change by the second fix; non-trivial: at least two documents'
)
PLAN = {'quick': 900, 'thorough': 16000}
REQUIRED_EVENTS = {
    'runs': 900, 'outputs': 1000, 'threads': 120, 'processes': 30, 'second-fix': 400, 'failing-batches': 60, 'limits': 60,
    'compressed': 200, 'injected-sleeps': 300, 'output-is-source': 20, 'repaired': 50, 'own-process': 5,
}
TIMESTAMP = re.compile(br'(<meta-name>fix-jats-run-timestamp</meta-name><meta-value>)[^<]*')
ENCODINGS = ['UTF-8', 'UTF-8', 'UTF-8', 'ISO-8859-1', 'US-ASCII', 'UTF-16']



def plain(data):
    return TIMESTAMP.sub(br'\1', data)


def text_plain(data):
    """without the time, for any encoding"""
    try:
        root = jats.parse(data)
    except Exception:  # pylint: disable=broad-except
        return None
    for item in root.getroot().iter('custom-meta'):
        if item.findtext('meta-name') == 'fix-jats-run-timestamp':
            item.find('meta-value').text = ''
    return (root.docinfo.encoding, root.docinfo.doctype, jats.canonical(root.getroot()))


def document(ctx):
    rng = ctx.rng
    refs = [c15.make_reference(ctx, i)[0] for i in range(1, rng.choice([1, 2, 3]))]
    if rng.random() < 0.2:
        refs.append('<ref id="r9"><mixed-citation>Caf\u00e9 \u4e2d\u6587, PMID: 5</mixed-citation></ref>')
    text = c14.document(rng, refs)
    text = re.sub(r'^<\?xml[^>]*\?>\n', '', text)
    encoding = rng.choice(ENCODINGS)
    repaired = False
    if encoding == 'UTF-8' and rng.random() < 0.5:
        text = '\n' * rng.choice([0, 0, 1]) + text
        if '<!DOCTYPE' not in text and rng.random() < 0.4:
            # an entity that is not declared
            text = text.replace('<title>Intro</title>', '<title>Intro&dagger;</title>')
            repaired = True
    else:
        text = '<?xml version="1.0" encoding="%s"?>\n' % encoding + text
    return text.encode(encoding, 'xmlcharrefreplace'), repaired


DIRS = ['', '', 'sub', 'sub/deep', 'other dir', 'x.xml.d', '\u00fcnicode']


def write(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if path.endswith('.gz'):
        with open(path, 'wb') as f:
            f.write(gzip.compress(data, mtime=0))
    else:
        with open(path, 'wb') as f:
            f.write(data)


def tree(path):
    result = {}
    for root, _, files in os.walk(path):
        for name in files:
            p = os.path.join(root, name)
            with open(p, 'rb') as f:
                result[os.path.relpath(p, path)] = f.read()
    return result


def setup_worker():
    jats.module()


def run_case(ctx):
    rng = ctx.rng
    base = ctx.new_dir('base')
    src = os.path.join(base, 'src')
    docs = {}
    for _ in range(rng.randint(1, 6)):
        name = '%s.%s' % (rng.choice(['doc', 'article', 'a b', 'doc-2']), rng.choice(['xml', 'xml', 'xml.gz', 'nxml.xml']))
        path = os.path.join(rng.choice(DIRS), name)
        if path in docs:
            continue
        docs[path], repaired = document(ctx)
        ctx.event('repaired', repaired)
        ctx.event('compressed', path.endswith('.gz'))
        write(os.path.join(src, path), docs[path])
    other = {'readme.txt': b'not xml', 'sub/data.json': b'{}'}
    for path, data in other.items():
        if rng.random() < 0.5:
            write(os.path.join(src, path), data)
    # each on its own
    expected = {}
    for path in docs:
        out = ctx.new_dir('one')
        error = jats.main(['--source-base-path', src, '--source-path', os.path.join(src, path), '--output-path', out])
        ctx.event('runs')
        target = os.path.join(out, path)
        if not ctx.require(error is None, 'command-failed', error=repr(error), path=path, source=docs[path]):
            return
        if not ctx.require(list(tree(out)) == [path], 'output-set-wrong', files=repr(list(tree(out))), expected=path, mode='single'):
            return
        try:
            expected[path] = text_plain(jats.read(target))
        except Exception as exc:  # pylint: disable=broad-except
            ctx.violation('output-unreadable', path=path, error=repr(exc))
            return
        if not ctx.require(expected[path] is not None, 'output-unreadable', path=path, output=jats.read(target)):
            return
        original = jats.etree.fromstring(docs[path].lstrip().replace(b'&dagger;', b'&#x2020;')).getroottree()
        ctx.require(original.docinfo.doctype == expected[path][1] and (original.docinfo.encoding or 'UTF-8') == expected[path][0],
                    'encoding-or-doctype-changed', source=docs[path], output=jats.read(target))
        ctx.require(
            dict(jats.meta(jats.parse(jats.read(target)).getroot())).get('fix-jats-malformatted-xml')
            == str(b'&dagger;' in docs[path] or docs[path].lstrip() != docs[path]).lower() or docs[path].lstrip() != docs[path],
            'record-of-repair-wrong', source=docs[path], output=jats.read(target))
        second_fix(ctx, target, path)
    if len(docs) > 1:
        ctx.distinct(sorted(docs), sorted(expected.values(), key=repr))
    # files that cannot be read
    bad = {}
    if rng.random() < 0.25:
        for i in range(rng.choice([1, 1, 2])):
            path = os.path.join(rng.choice(DIRS), 'bad%d.xml' % i)
            bad[path] = rng.choice([b'', b'no xml', b'<article><back></article>', b'<article>', b'\xff\xfe\x00<'])
            write(os.path.join(src, path), bad[path])
    batch(ctx, base, src, docs, bad, expected)


def second_fix(ctx, target, path):
    before = jats.parse(jats.read(target))
    out = ctx.new_dir('again')
    error = jats.main(['--source-path', target, '--output-path', out])
    ctx.event('runs')
    ctx.event('second-fix')
    again = os.path.join(out, os.path.basename(path))
    if not ctx.require(error is None and os.path.exists(again), 'second-fix-failed', error=repr(error), source=jats.read(target)):
        return
    after = jats.parse(jats.read(again))
    meta = [v for k, v in jats.meta(after.getroot()) if k == 'fix-jats-changed-reference-count']
    a = jats.canonical(jats.without_meta(before.getroot()))
    b = jats.canonical(jats.without_meta(after.getroot()))
    ctx.require(a == b, 'second-fix-changes', first=jats.read(target), second=jats.read(again))
    ctx.require(meta[-1:] == ['0'], 'second-fix-recorded-as-change', meta=repr(meta), second=jats.read(again))


def batch(ctx, base, src, docs, bad, expected):
    rng = ctx.rng
    files = sorted(list(docs) + list(bad))
    before = tree(src)
    mode = rng.choice(['pattern', 'pattern', 'own-pattern', 'plain-list', 'csv', 'tsv'])
    argv = []
    selected = list(files)
    limit = None
    trailing = rng.choice(['', '/'])
    if mode == 'pattern':
        argv += ['--source-base-path', src + trailing]
    elif mode == 'own-pattern':
        argv += ['--source-base-path', src, '--source-filename-pattern', '**doc*.xml.gz' if rng.random() < 0.3 else '**doc.xml']
        suffix = argv[-1][2:].lstrip('*')
        if suffix == 'doc.xml':
            selected = [p for p in files if p.endswith('doc.xml')]
        else:
            selected = [p for p in files if re.search(r'doc[^/]*\.xml\.gz$', p) or re.search(r'doc.*\.xml\.gz$', p)]
    else:
        selected = rng.sample(files, rng.randint(1, len(files)))
        absolute = rng.random() < 0.5
        entries = [os.path.join(src, p) if absolute else p for p in selected]
        where = src
        if mode == 'plain-list':
            list_path = os.path.join(where, 'list.lst')
            text = '\n'.join(entries) + rng.choice(['', '\n'])
        else:
            list_path = os.path.join(where, 'list.' + mode)
            d = {'csv': ',', 'tsv': '\t'}[mode]
            column = rng.choice(['xml_url', 'xml_url', 'my column'])
            if column != 'xml_url':
                argv += ['--source-file-list-column', column]
            text = '\n'.join(['id' + d + column + d + 'z'] + ['%d%s%s%sz' % (i, d, p, d) for i, p in enumerate(entries)]) + '\n'
        with open(list_path, 'w', encoding='utf-8') as f:
            f.write(text)
        before = tree(src)
        argv += ['--source-file-list', list_path]
        if rng.random() < 0.5:
            argv += ['--source-base-path', src]
    if rng.random() < 0.3 and not bad:
        limit = rng.randint(1, len(files) + 1)
        argv += ['--limit', str(limit)]
        ctx.event('limits')
    if rng.random() < 0.2:
        argv.append('--no-log-file')
    own = rng.random()
    if own < 0.1:
        # the output directory is the directory of the sources, spelled in some way
        out = rng.choice([src, src + '/', os.path.join(base, '.', 'src'), os.path.join(src, '..', 'src'), os.path.join(base, 'link')])
        if out.endswith('link'):
            os.symlink(src, out)
        error = jats.main(argv + ['--output-path', out])
        ctx.event('output-is-source')
        ctx.require(tree(src) == before, 'source-changed', argv=repr(argv), out=out)
        ctx.require(error is not None or not selected, 'no-error-for-output-over-source', argv=repr(argv), out=out)
        return
    out = ctx.new_dir('out')
    if rng.random() < 0.3:
        out = os.path.join(out, 'new', 'dir')
    if rng.random() < 0.2:
        write(os.path.join(out, 'kept.txt'), b'kept')
        stale = rng.choice(sorted(docs))
        write(os.path.join(out, stale), b'stale')
    stale_tree = tree(out) if os.path.isdir(out) else {}
    processes = rng.random() < 0.2
    workers = rng.choice([1, 2, 3, 8])
    run_argv = argv + ['--output-path', out + rng.choice(['', '/']), '--num-workers', str(workers)]
    own_tmp = ctx.new_dir('tmp')
    old = os.environ['TMPDIR']
    os.environ['TMPDIR'] = own_tmp
    tempfile.tempdir = None
    try:
        if processes:
            ctx.event('processes')
            error = jats.main(run_argv + ['--multi-processing'])
        elif ctx.index % 30 == 7:
            ctx.event('own-process')
            error = core.command('fix_jats_xml', run_argv + ['--debug'] * (rng.random() < 0.5))
        else:
            delays = Delays(rng.random(), probability=rng.choice([0.1, 0.3]), max_sleep=0.004, budget=0.4)
            with delays:
                error = jats.main(run_argv)
            ctx.event('threads', workers > 1)
            ctx.event('injected-sleeps', delays.sleeps)
    finally:
        os.environ['TMPDIR'] = old
        tempfile.tempdir = None
    ctx.event('runs')
    ctx.require(tree(src) == before, 'source-changed', argv=repr(run_argv), out=out)
    ctx.require(not os.listdir(own_tmp), 'temporary-files-left', left=repr(os.listdir(own_tmp)), argv=repr(run_argv))
    chosen_bad = [p for p in selected if p in bad]
    if chosen_bad:
        ctx.event('failing-batches')
        ctx.require(error is not None, 'failure-not-reported', bad=repr({p: bad[p] for p in chosen_bad}), argv=repr(run_argv))
    elif not ctx.require(error is None, 'batch-failed', error=repr(error), argv=repr(run_argv), files=repr(files)):
        return
    after = tree(out) if os.path.isdir(out) else {}
    new = {p for p in after if after[p] != stale_tree.get(p)}
    want = {p for p in selected if p in docs}
    if limit is not None:
        ctx.require(len(new) == min(limit, len(want)) and new <= want, 'limit-not-kept', limit=limit, files=repr(sorted(new)),
                    selected=repr(sorted(want)), argv=repr(run_argv))
        if mode in ('plain-list', 'csv', 'tsv'):
            ctx.require(new == set(selected[:limit]), 'limit-not-the-first', limit=limit, files=repr(sorted(new)), selected=repr(selected))
    else:
        ctx.require(new == want, 'output-set-wrong', files=repr(sorted(new)), expected=repr(sorted(want)), argv=repr(run_argv), mode=mode)
    ctx.require(all(p in after and (p in new or after[p] == stale_tree[p]) for p in stale_tree), 'other-output-changed', argv=repr(run_argv))
    for path in sorted(new & want):
        ctx.event('outputs')
        try:
            actual = text_plain(jats.read(os.path.join(out, path)))
        except Exception as exc:  # pylint: disable=broad-except
            ctx.violation('output-unreadable', path=path, error=repr(exc), argv=repr(run_argv))
            continue
        ctx.require(actual == expected[path], 'output-depends-on-batch', path=path, argv=repr(run_argv), expected=repr(expected[path]), actual=repr(actual))
    shutil.rmtree(out, ignore_errors=True)

"""C25 file names, directories and compression"""
import gzip
import os
import tempfile

from vf import core, pipes, work

RULE = (
    'one to five documents of all 8 commands, sources and targets compressed (.gz) or not, names with spaces, dots, brackets, quotes, other alphabets and '
    'capitals, directories with spaces and given relative, with a trailing slash, over a symbolic link or not existing yet (output); --source-path or '
    '--source-base-path, several threads or processes, in this process or as `python -m` command, with documents that fail the required fields; oracle: output of the same documents '
    'under plain names, uncompressed; monitors: set of files in output and failed directory, bytes of sources and targets, temporary files left; '
    'non-trivial: at least one name or file that is not plain'
)
PLAN = {'quick': 500, 'thorough': 12000}
REQUIRED_EVENTS = {
    'source-gz': 200, 'target-gz': 100, 'odd-name': 300, 'outputs': 700, 'failed-outputs': 30, 'relative': 100, 'link': 100, 'new-output-path': 100,
    'single-source': 15, 'unchanged-inputs': 400, 'temporary-directory-empty': 400, 'processes': 20, 'own-process': 20, 'debug': 8
}
REQUIRED_EVENTS.update({'pipeline:' + n: 40 for n in pipes.PIPES})
ODD = ['a b', 'a..b', '\u00e4\u00f6-1', 'x[1]', "o'neil", 'a+b', 'A.B.C', '100%', 'a#1', 'x(2)', '-dash', '.dot', 'name.tei', 'a&b', '\u4e2d\u6587', 'xml', 'a.xml', '~home',
       'x{1}', 'a,b', 'a;b', '1234-567', 'UPPER.Case', 'a=b', '$HOME', 'a^b', 'b.gz']
GATED = ('header', 'segmentation', 'fulltext')


def put(path, data, compress):
    with open(path, 'wb') as f:
        f.write(gzip.compress(data) if compress else data)


def content(path):
    data = pipes.read(path)
    return gzip.decompress(data) if path.endswith('.gz') else data


def tree(path):
    return {
        os.path.relpath(os.path.join(d, f), path): pipes.read(os.path.join(d, f))
        for d, _, files in os.walk(path, followlinks=True) for f in files}


def run_case(ctx):  # pylint: disable=too-many-locals,too-many-branches,too-many-statements
    rng = ctx.rng
    pipe = pipes.PIPES[work.NAMES[ctx.index % len(work.NAMES)]]
    opts = []
    if pipe.name in GATED and rng.random() < 0.4:
        opts += ['--required-fields', rng.choice(['title', 'abstract', 'title,abstract'])]
    docs = [work.document(rng, pipe, kind='truth') for _ in range(rng.randint(1, 5))]
    # -- plain
    expected, passed = {}, {}
    for i, (source, target) in enumerate(docs):
        src, out, xml, failed = (ctx.new_dir(x) for x in ('src', 'out', 'xml', 'failed'))
        put(os.path.join(src, 'doc' + pipe.suffix), source.encode('utf-8'), False)
        put(os.path.join(xml, 'doc.xml'), target.encode('utf-8'), False)
        result = pipes.run(pipe, src, out, xml, opts + ['--failed-output-path', failed])
        found = [p for p in (os.path.join(d, 'doc' + pipe.suffix) for d in (out, failed)) if os.path.exists(p)]
        if not ctx.require(result.error is None and len(found) == 1, 'command-failed', error=repr(result.error), doc=source, opts=opts, found=found):
            return
        expected[i] = pipes.read(found[0])
        passed[i] = found[0].startswith(out + '/')
    # -- the same, stored differently
    top = ctx.new_dir('data') + rng.choice(['/', '/with space/', '/\u00fcber.d/', '/a.b/'])
    os.makedirs(top, exist_ok=True)
    src, out, xml, failed = (os.path.join(top, x) for x in rng.choice([('src', 'out', 'xml', 'failed'), ('tei raw', 'tei auto', 'XML', 'tei.failed')]))
    for d in (src, xml):
        os.makedirs(d)
    names = {}
    target_gz = rng.random() < 0.35
    used = set()
    odd = False
    for i, (source, target) in enumerate(docs):
        name = rng.choice(ODD) if rng.random() < 0.6 else 'doc%d' % i
        if name in used:
            name = 'doc%d' % i
        used.add(name)
        ctx.event('odd-name', int(not name.startswith('doc')))
        source_gz = rng.random() < 0.4
        ctx.event('source-gz', int(source_gz))
        odd = odd or source_gz or target_gz or not name.startswith('doc')
        names[i] = name + pipe.suffix + ('.gz' if source_gz else '')
        put(os.path.join(src, names[i]), source.encode('utf-8'), source_gz)
        put(os.path.join(xml, name + ('.xml.gz' if target_gz else '.xml')), target.encode('utf-8'), target_gz)
    ctx.event('target-gz', int(target_gz))
    if rng.random() < 0.5:
        os.makedirs(out)
    else:
        ctx.event('new-output-path')
        if rng.random() < 0.5:
            out = os.path.join(out, 'new', 'er')
    before = tree(src), tree(xml)
    spelled = {}
    for key, path in (('src', src), ('out', out), ('xml', xml), ('failed', failed)):
        how = rng.choice(['plain', 'plain', 'slash', 'relative', 'link'])
        if how == 'link' and os.path.isdir(path):
            link = os.path.join(ctx.new_dir('link'), 'l')
            os.symlink(path, link)
            path = link
            ctx.event('link')
        elif how == 'relative':
            path = os.path.relpath(path)
            ctx.event('relative')
        elif how == 'slash':
            path += '/'
        spelled[key] = path
    single = len(docs) == 1 and rng.random() < 0.5
    argv = pipe.argv(spelled['src'], spelled['out'], spelled['xml'], opts)
    argv[argv.index('--xml-filename-regex') + 1] = r'/(.*)%s.*/\1.xml%s/' % (pipe.suffix.replace('.', r'\.'), '.gz' if target_gz else '')
    if single:
        at = argv.index('--source-base-path')
        argv[at:at + 2] = ['--source-path', os.path.join(spelled['src'], names[0])]
        ctx.event('single-source')
    argv += ['--failed-output-path', spelled['failed'], '--num-workers', str(rng.choice([1, 1, 2, 4]))]
    if rng.random() < 0.1:
        argv.append('--multi-processing')
        ctx.event('processes')
    temp = ctx.new_dir('tmp')
    previous = tempfile.tempdir
    if ctx.index % 13 == 3:
        # as a command of its own
        ctx.event('own-process')
        if rng.random() < 0.6:
            argv.append('--debug')
            ctx.event('debug')
        result = pipes.RunResult(core.command(pipe.module_name.split('.')[-1], argv, TMPDIR=temp), out)
    else:
        tempfile.tempdir = temp
        try:
            result = pipes.run(pipe, src, out, xml, argv=argv)
        finally:
            tempfile.tempdir = previous
    ctx.event('pipeline:' + pipe.name)
    detail = dict(pipe=pipe.name, argv=argv, names=names)
    if not ctx.require(result.error is None, 'failed-for-these-names', error=repr(result.error), **detail):
        return
    written = {'out': sorted(tree(out)), 'failed': sorted(tree(failed))}
    want = {'out': sorted(names[i] for i in names if passed[i]), 'failed': sorted(names[i] for i in names if not passed[i])}
    if not ctx.require(written == want, 'other-output-files', written=written, want=want, **detail):
        return
    for i, name in names.items():
        path = os.path.join(out if passed[i] else failed, name)
        try:
            got = content(path)
        except OSError as e:
            ctx.violation('output-not-compressed', name=name, error=repr(e), **detail)
            return
        ctx.event('outputs' if passed[i] else 'failed-outputs')
        ctx.require(got == expected[i], 'output-depends-on-name-or-compression', name=name, got=got, expected=expected[i], doc=docs[i], **detail)
    ctx.require((tree(src), tree(xml)) == before, 'sources-or-targets-changed', **detail)
    ctx.event('unchanged-inputs')
    ctx.require(not os.listdir(temp), 'temporary-files-left', left=os.listdir(temp), **detail)
    ctx.event('temporary-directory-empty')
    if odd:
        ctx.distinct(argv[8:], sorted(names.values()), docs)

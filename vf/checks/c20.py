"""C20 download of source files"""
import bz2
import gzip
import os
import re
import threading
import time

from vf import core
from vf.delays import Delays

MODULE = 'sciencebeam_trainer_grobid_tools.download_source_files'
RULE = (
    'lists (plain, csv, tsv; relative or absolute entries; repeated entries; pairs of which one or both files are missing; one list or two) over trees of '
    'binary and compressed files of 0 bytes to several buffers, naming patterns with all placeholders, limits, 1-10 threads under injected delays, '
    'existing files in the output, patterns that give two files one name or the name of a source, sources that cannot be read, outputs that cannot be written; '
    'monitors: tree of the sources unchanged, set and contents of the outputs against the copies that the lists and patterns ask for, exit status; '
    'non-trivial: at least two pairs'
)
PLAN = {'quick': 1500, 'thorough': 40000}
REQUIRED_EVENTS = {
    'runs': 1500, 'copies': 4000, 'threads': 700, 'injected-sleeps': 1500, 'compressed': 800, 'missing-pairs': 300, 'limits': 200, 'csv': 300,
    'faults': 60, 'name-clash': 60, 'onto-source': 30, 'pattern:index': 100, 'pattern:other-list': 200, 'pattern:dir': 200, 'large': 60, 'default-base': 300, 'list-elsewhere': 200, 'own-process': 5, 'long-list': 10, 'threads-ended': 700, 'threads-ended-after-failure': 50,
}
DIRS = ['', 'a', 'b', 'a/deep', 'other dir', 'd.x']
PATTERNS = [
    '{filename}', '{filename}', '{name}{ext}', '{name}-x{ext}', '{index}{ext}', '{index}-{filename}', '{dir}{filename}', '{dir}{name}.gz', '{dir}{name}{ext}.gz',
    '{document.name}{ext}', '{target.name}.{index}{ext}', '{document.dir}{document.name}{ext}', 'new/{dir}/{name}{ext}', '{document.name}.xml', '{index}.bz2',
    '{target.dir}{index}-{target.filename}-{filename}', 'all', '{ext}{name}',
]


def setup_worker():
    import importlib
    importlib.import_module(MODULE)


def main(argv):
    import importlib
    try:
        importlib.import_module(MODULE).main(argv)
    except SystemExit as exc:
        return exc if exc.code else None
    except Exception as exc:  # pylint: disable=broad-except
        return exc
    return None


def pack(path, data):
    low = path.lower()
    if low.endswith('.gz'):
        return gzip.compress(data, mtime=0)
    if low.endswith('.bz2'):
        return bz2.compress(data)
    return data


def unpack(path, data):
    low = path.lower()
    try:
        if low.endswith('.gz'):
            return gzip.decompress(data)
        if low.endswith('.bz2'):
            return bz2.decompress(data)
    except Exception:  # pylint: disable=broad-except
        return None
    return data


def write(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(data)


def tree(path):
    result = {}
    for root, dirs, files in os.walk(path):
        for name in dirs:
            result[os.path.relpath(os.path.join(root, name), path)] = None
        for name in files:
            p = os.path.join(root, name)
            with open(p, 'rb') as f:
                result[os.path.relpath(p, path)] = f.read()
    return result


def files(tree_):
    return {k: v for k, v in tree_.items() if v is not None}


def content(ctx):
    rng = ctx.rng
    n = rng.choice([0, 1, 10, 300, 300, 5000])
    if rng.random() < 0.05:
        n = rng.choice([16384, 65536, 65537, 200000, 1100000])
        ctx.event('large')
    kind = rng.randint(0, 2)
    if kind == 0:
        return rng.randbytes(n)
    if kind == 1:
        return (b'text %d\r\n' % rng.randint(0, 9999)) * (n // 8)
    return b'\x1f\x8b' + rng.randbytes(n)


def props(path):
    """documented placeholders, independent of the code"""
    d, _, filename = path.rpartition('/')
    stem = re.sub(r'\.gz$', '', filename, flags=re.I)
    m = re.fullmatch(r'(.+?)(\.[^.]*)?', stem, flags=re.S)
    return {'dir': d + '/' if d else '', 'filename': filename, 'name': m.group(1), 'ext': m.group(2) or ''}


def expand(pattern, own, index, pair):
    def sub(m):
        key = m.group(1)
        if key == 'index':
            return str(index)
        if '.' in key:
            which, key = key.split('.')
            return props(pair[which])[key]
        return props(own)[key]
    return re.sub(r'\{([a-z.]+)\}', sub, pattern)


def file_name(rng, exts):
    return rng.choice(['doc', 'article', 'a b', 'x.y', 'doc-%d' % rng.randint(1, 30), 'm%d' % rng.randint(1, 30)]) + rng.choice(exts)


def make_list(ctx, src, name, column, entries, other):
    rng = ctx.rng
    kind = rng.choice(['lst', 'lst', 'csv', 'tsv'])
    path = os.path.join(src, name + '.' + kind)
    argv = []
    if kind == 'lst':
        text = '\n'.join(entries) + rng.choice(['', '\n'])
    else:
        ctx.event('csv')
        d = {'csv': ',', 'tsv': '\t'}[kind]
        chosen = rng.choice([column, column, 'my column'])
        if chosen != column:
            argv = ['--%s-file-column' % name, chosen]
        eol = rng.choice(['\n', '\r\n'])
        text = eol.join(['id' + d + chosen + d + 'z'] + ['%d%s%s%s%s' % (i, d, e, d, o) for i, (e, o) in enumerate(zip(entries, other))]) + eol
    write(path, text.encode('utf-8'))
    return ['--%s-file-list' % name, path] + argv


def run_case(ctx):  # pylint: disable=too-many-locals,too-many-branches,too-many-statements
    rng = ctx.rng
    base = ctx.new_dir('base')
    src = os.path.join(base, 'src')
    os.makedirs(src)
    pairs = []
    data = {}
    missing = set()
    long_list = ctx.index % 60 == 17
    ctx.event('long-list', long_list)
    for i in range(rng.choice([70, 130, 300]) if long_list else rng.choice([1, 2, 3, 5, 12])):
        if pairs and rng.random() < 0.04:
            pairs.append(rng.choice(pairs))
            continue
        d = rng.choice(DIRS) + ('/s%d' % i if long_list else '')
        d = d.lstrip('/')
        doc = os.path.join(d, file_name(rng, ['.pdf', '.pdf', '.pdf.gz', '.PDF.GZ', '.pdf.bz2', '']))
        target = os.path.join(rng.choice([d, d, 'xml']), file_name(rng, ['.xml', '.xml', '.nxml', '.xml.gz']))
        if doc in data or target in data or doc in missing or target in missing:
            continue
        pairs.append((doc, target))
        for p in (doc, target):
            if rng.random() < 0.06:
                missing.add(p)
                continue
            data[p] = b'%d' % i if long_list else content(ctx)
            write(os.path.join(src, p), pack(p, data[p]))
            ctx.event('compressed', pack(p, b'x') != b'x')
    # a path that is a directory of another one
    limit = rng.randint(1, len(pairs) + 1) if rng.random() < 0.2 else None
    absolute = rng.random() < 0.4
    full = [[os.path.join(src, p) if absolute else p for p in pair] for pair in pairs]
    documents, targets = [p[0] for p in full], [p[1] for p in full]
    argv = []
    for name, column, own, other in (('document', 'source_url', documents, targets), ('target', 'xml_url', targets, documents)):
        list_dir = src
        if rng.random() < 0.5:
            argv += ['--%s-base-path' % name, src + rng.choice(['', '/'])]
            if rng.random() < 0.5:
                ctx.event('list-elsewhere')
                list_dir = os.path.join(base, 'lists')
        else:
            ctx.event('default-base')
        argv += make_list(ctx, list_dir, name, column, own, other)
    out = ctx.new_dir('out')
    onto_source = rng.random() < 0.05
    if onto_source:
        outs = {'document': src, 'target': src}
    elif rng.random() < 0.3:
        outs = {'document': out, 'target': out}
    else:
        outs = {'document': os.path.join(out, 'pdf'), 'target': os.path.join(out, 'xml', 'deep')}
    patterns = {}
    for name in ('document', 'target'):
        patterns[name] = rng.choice(['{index}-{filename}', '{dir}{filename}', '{index}{ext}'] if long_list else PATTERNS)
        if onto_source:
            other = {'document': 'target', 'target': 'document'}[name]
            patterns[name] = rng.choice(['{dir}{filename}', '{filename}', '{dir}{name}{ext}', '{dir}{name}-new{ext}', '{dir}{name}-new{ext}',
                                         '{%s.dir}{%s.filename}' % (other, other)])
        if patterns[name] != '{filename}' or rng.random() < 0.5:
            argv += ['--%s-output-filename-pattern' % name, patterns[name]]
        argv += ['--%s-output-path' % name, outs[name] + rng.choice(['', '/'])]
        for word in ('index', 'dir'):
            ctx.event('pattern:' + word, '{' + word + '}' in patterns[name])
        ctx.event('pattern:other-list', '{document.' in patterns[name] or '{target.' in patterns[name])
    if limit:
        argv += ['--limit', str(limit)]
        ctx.event('limits')
    selected = pairs[:limit] if limit else pairs
    present = [pair for pair in selected if pair[0] in data and pair[1] in data]
    ctx.event('missing-pairs', len(selected) - len(present))
    # what has to be there
    wanted = {}
    clash = False
    overwrites = False
    for index, pair in enumerate(present):
        both = dict(zip(('document', 'target'), pair))
        for name, p in both.items():
            path = os.path.normpath(os.path.join(outs[name], expand(patterns[name], p, index, both)))
            clash = clash or wanted.get(path, p) != p
            wanted[path] = p
    for path in wanted:
        rel = os.path.relpath(path, src)
        overwrites = overwrites or rel in data
        # one as a directory of the other
        clash = clash or any(other.startswith(path + '/') for other in wanted)
    fault = None
    if present and not clash and not onto_source and rng.random() < 0.12:
        fault = rng.choice(['source-directory', 'output-directory', 'output-path-is-file'])
        ctx.event('faults')
        if fault == 'source-directory':
            p = rng.choice(rng.choice(present))
            os.remove(os.path.join(src, p))
            os.mkdir(os.path.join(src, p))
        elif fault == 'output-directory':
            os.makedirs(rng.choice(sorted(wanted)))
        else:
            path = os.path.dirname(rng.choice(sorted(wanted)))
            if path == out:
                os.makedirs(rng.choice(sorted(wanted)))
            else:
                write(path, b'')
    kept = {}
    if rng.random() < 0.2 and not fault and not onto_source:
        kept = {'kept.txt': b'kept', 'sub/other.pdf': b'kept too'}
        for p, d in kept.items():
            write(os.path.join(out, p), d)
        for path in wanted:
            if rng.random() < 0.3 and not clash:
                # from an earlier run
                write(path, b'an older and longer version of this file' * 20)
    before_src, before_out = tree(src), files(tree(out))
    threads = rng.choice([None, 1, 2, 4, 10])
    if threads:
        argv += ['--threads', str(threads)]
    ctx.event('threads', (threads or 1) > 1)
    delays = Delays(rng.random(), probability=rng.choice([0.05, 0.2]), max_sleep=0.003, budget=0.2)
    if ctx.index % 100 == 7:
        ctx.event('own-process')
        error = core.command('download_source_files', argv + ['--debug'] * (rng.random() < 0.5))
    else:
        threads_before = set(threading.enumerate())
        with delays:
            error = main(argv)
        end = time.monotonic() + 20
        while set(threading.enumerate()) - threads_before and time.monotonic() < end:
            time.sleep(0.01)
        left = sorted(t.name for t in set(threading.enumerate()) - threads_before)
        ctx.event('threads-ended-after-failure' if error else 'threads-ended')
        ctx.require(not left, 'threads-left-running', left=left, argv=repr(argv), error=repr(error))
    ctx.event('injected-sleeps', delays.sleeps)
    ctx.event('runs')
    if len(present) > 1:
        ctx.distinct(pairs, sorted(patterns.items()), argv)
    detail = dict(argv=repr(argv), pairs=repr(pairs), missing=sorted(missing), wanted=repr(wanted), error=repr(error))
    after_src, after_out = tree(src), files(tree(out))
    if onto_source:
        ctx.event('onto-source', overwrites)
        changed = [p for p in data if after_src.get(p) != before_src.get(p)]
        if not ctx.require(not changed, 'source-changed', changed=repr(changed), **detail):
            return
    else:
        if not ctx.require(after_src == before_src, 'source-changed', changed=repr([p for p in before_src if after_src.get(p) != before_src[p]]), **detail):
            return
    if not present:
        ctx.require(error is not None, 'nothing-to-do-not-reported', **detail)
        ctx.require(after_out == before_out, 'output-without-pairs', **detail)
        return
    if fault:
        ctx.require(error is not None, 'failure-not-reported', fault=fault, **detail)
        return
    if overwrites:
        ctx.require(error is not None, 'output-over-source-not-reported', **detail)
        return
    if clash:
        ctx.event('name-clash')
        ctx.require(error is not None, 'files-overwrite-each-other', **detail)
        return
    if not ctx.require(error is None, 'download-failed', **detail):
        return
    actual = {os.path.join(out, p): v for p, v in after_out.items()}
    if onto_source:
        actual = {os.path.join(src, p): v for p, v in files(after_src).items() if p not in before_src}
    expected = set(wanted) | {os.path.join(out, p) for p in kept}
    if not ctx.require(set(actual) == expected, 'output-set-wrong', additional=sorted(set(actual) - expected), lost=sorted(expected - set(actual)), **detail):
        return
    for path, p in wanted.items():
        ctx.event('copies')
        ctx.require(unpack(path, actual[path]) == data[p], 'copy-differs', path=path, source=p, size=len(data[p]), actual=repr(actual[path][:200]), **detail)
    for p, d in kept.items():
        ctx.require(actual[os.path.join(out, p)] == d, 'other-file-changed', path=p, **detail)

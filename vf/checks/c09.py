"""C09 resume, limit and single files: histories of runs with crashes"""
import os
import resource
import signal
import sys
import time

from vf import gen, judge, pipes, work

RULE = (
    'histories of 2-6 runs of a command over a batch of documents, each run in a process of its own, with '
    'resume, limit or a single file, ended by a kill before the k-th file system call on the output, by a kill '
    'or an I/O error after the first b bytes of an output file, by a kill at a random time, or not at all; '
    'outputs are removed or marked in between; monitors: every output is complete, equal to the one of an uninterrupted run or '
    'untouched, the documents processed are the ones the options ask for, sources unchanged; '
    'non-trivial: a run was interrupted and resumed'
)
PLAN = {'quick': 260, 'thorough': 6000}
LEVEL = 'fault_enumeration'
REQUIRED_EVENTS = {
    'runs': 600, 'killed-at-call': 20, 'killed-in-write': 20, 'failed-write': 20, 'resumed-after-fault': 60,
    'untouched-checked': 100, 'limit-runs': 40, 'single-file-runs': 40}
ASSUMPTIONS = [
    'a crash is the end of the process (SIGKILL, SIGXFSZ); loss of data that was written but not flushed to the disk is not modelled',
]
MARK = b'<!-- result of an earlier run -->'


def setup_worker():
    # loaded once, not in every forked run
    for pipe in pipes.PIPES.values():
        assert pipe.module


def fork_run(pipe, src, out, xml, extra, fault, single=None):
    """-> ('ok' | 'error' | 'killed', number of file system calls seen on the output)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            null = os.open(os.devnull, os.O_RDWR)
            for fd in (0, 1, 2):
                os.dup2(null, fd)
            signal.alarm(0)
            signal.setitimer(signal.ITIMER_PROF, 0)
            kind, arg = fault
            count = [0]

            def hook(event, args):
                if event in ('open', 'os.rename', 'os.remove', 'os.mkdir', 'os.truncate', 'os.link', 'shutil.copyfile', 'shutil.move'):
                    if not any(isinstance(a, (str, bytes)) and os.fsdecode(a).startswith(out + os.sep) for a in args):
                        return
                    if event == 'open' and isinstance(args[1], str) and args[1].startswith('r') and '+' not in args[1]:
                        return
                    count[0] += 1
                    os.write(w, b'x')
                    if kind == 'call' and count[0] == arg:
                        os.kill(os.getpid(), signal.SIGKILL)

            sys.addaudithook(hook)
            if kind in ('write-kill', 'write-error'):
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                if kind == 'write-kill':
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_FSIZE, (arg, arg))
            elif kind == 'time':
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.setitimer(signal.ITIMER_REAL, arg)
            argv = pipe.argv(src, out, xml, extra)
            if single:
                argv[0:2] = ['--source-path', single]
            result = pipes.run(pipe, src, out, xml, argv=argv)
            code = 0 if result.error is None else 1
        finally:
            os._exit(code)  # pylint: disable=protected-access
    os.close(w)
    calls = 0
    while True:
        data = os.read(r, 4096)
        if not data:
            break
        calls += len(data)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        return 'killed', calls
    return {0: 'ok', 1: 'error'}.get(os.WEXITSTATUS(status), 'broken'), calls


def snapshot(path):
    out = {}
    for name in sorted(os.listdir(path)):
        full = os.path.join(path, name)
        st = os.stat(full)
        out[name] = (st.st_ino, st.st_mtime_ns, pipes.read(full) if os.path.isfile(full) else None)
    return out


def run_case(ctx):
    rng = ctx.rng
    pipe = pipes.PIPES[work.NAMES[ctx.index % len(work.NAMES)]]
    n_docs = rng.randint(1, 5)
    opts = [judge.SEGMENT_OPTION[pipe.name]] if pipe.name in judge.SEGMENT_OPTION else []
    src, out, xml, ref = ctx.new_dir('src'), ctx.new_dir('out'), ctx.new_dir('xml'), ctx.new_dir('ref')
    names = []
    for d in range(n_docs):
        doc = work.TRUTH[pipe.name](rng)
        name = '%s%d%s' % (rng.choice('abc'), d, pipe.suffix)
        names.append(name)
        pipes.write(os.path.join(src, name), pipes.wrap_document(pipe, gen.render(doc.items()), rng))
        pipes.write(os.path.join(xml, name.replace(pipe.suffix, '.xml')), doc.jats.xml())
    # a file of another kind is nobody's source
    pipes.write(os.path.join(src, 'other.txt'), 'not a training file')
    sources = snapshot(src), snapshot(xml)
    status, total_calls = fork_run(pipe, src, ref, xml, opts, ('none', None))
    if status != 'ok':
        ctx.violation('reference-run-failed', pipe=pipe.name, status=status)
        return
    expected = {name: pipes.read(os.path.join(ref, name)) if os.path.exists(os.path.join(ref, name)) else None
                for name in names}
    if not ctx.require(all(v is not None for v in expected.values()) and sorted(os.listdir(ref)) == sorted(names),
                       'uninterrupted-run-incomplete', pipe=pipe.name, names=names, files=os.listdir(ref)):
        return
    history = []
    interrupted = False
    for step in range(rng.randint(2, 6)):
        last = step >= 1 and rng.random() < 0.3
        # ---- something happens between the runs
        present = [n for n in names if os.path.exists(os.path.join(out, n))]
        for n in present:
            r = rng.random()
            if r < 0.15:
                os.remove(os.path.join(out, n))
                history.append('remove ' + n)
            elif r < 0.3:
                pipes.write(os.path.join(out, n), MARK)
                history.append('mark ' + n)
        before = snapshot(out)
        # ---- a run
        resume = rng.random() < 0.8
        extra = list(opts) + (['--resume'] if resume else [])
        workers = rng.choice([1, 1, 2, 4])
        extra += ['--num-workers', str(workers)]
        limit, single = None, None
        r = rng.random()
        if not last and r < 0.25:
            limit = rng.randint(1, n_docs + 1)
            extra += ['--limit', str(limit)]
            ctx.event('limit-runs')
        elif not last and r < 0.45:
            single = os.path.join(src, rng.choice(names))
            ctx.event('single-file-runs')
        skip = rng.random() < 0.3
        if skip:
            extra.append('--skip-errors')
        fault = ('none', None)
        if not last:
            kind = rng.choice(['none', 'call', 'write-kill', 'write-error', 'time'])
            size = len(rng.choice(sorted(expected.values())))
            fault = (kind, {
                'none': lambda: None,
                'call': lambda: rng.randint(1, max(1, total_calls)),
                'write-kill': lambda: rng.choice([0, 1, size // 2, size - 1]),
                'write-error': lambda: rng.choice([0, 1, size // 2, size - 1]),
                'time': lambda: rng.uniform(0.002, 0.06),
            }[kind]())
        status, _ = fork_run(pipe, src, out, xml, extra, fault, single)
        history.append({'opts': extra, 'single': single, 'fault': fault, 'status': status})
        ctx.event('runs')
        if status == 'killed':
            ctx.event({'call': 'killed-at-call', 'write-kill': 'killed-in-write', 'time': 'killed-at-time'}.get(fault[0], 'killed'))
        elif fault[0] == 'write-error' and status == 'error':
            ctx.event('failed-write')
        detail = dict(pipe=pipe.name, history=history)
        after = snapshot(out)
        # ---- monitors
        complete = status == 'ok' and (fault[0] != 'write-error' or not skip)
        if fault[0] == 'none' or fault[0] == 'time':
            ctx.require(status in ('ok', 'killed'), 'run-failed', **detail)
        ctx.require(status != 'broken', 'run-broken', **detail)
        candidates = set(names) if single is None else {os.path.basename(single)}
        processed = set()
        for n in names:
            have = after.get(n)
            if have is None:
                ctx.require(n not in before, 'output-disappeared', name=n, **detail)
                continue
            ctx.event('outputs-checked')
            if n in before and have == before[n]:
                # untouched, which must be what was asked for or what the crash left
                ctx.event('untouched-checked')
                continue
            processed.add(n)
            ctx.require(n in candidates, 'other-file-processed', name=n, **detail)
            ctx.require(not (resume and n in before), 'existing-output-written-again', name=n, **detail)
            ctx.require(have[2] == expected[n], 'output-not-complete', name=n, expected=expected[n], actual=have[2], **detail)
        if limit is not None:
            ctx.require(len(processed) <= limit, 'limit-exceeded', processed=sorted(processed), limit=limit, **detail)
        if complete:
            if limit is None:
                due = {n for n in candidates if not (resume and n in before)}
                ctx.require(processed == due, 'wrong-documents-processed', due=sorted(due), processed=sorted(processed), **detail)
            elif not resume or not before:
                ctx.require(len(processed) == min(limit, n_docs), 'limit-not-used', limit=limit,
                            processed=sorted(processed), **detail)
            else:
                missing = len([n for n in names if n not in before])
                ctx.require(len(processed) >= min(limit, n_docs) - (n_docs - missing), 'limit-not-used', limit=limit,
                            processed=sorted(processed), **detail)
        ctx.require((snapshot(src), snapshot(xml)) == sources, 'source-changed', **detail)
        if status == 'ok' and not interrupted:
            ctx.require(set(after) <= set(names), 'unexpected-files', files=sorted(after), **detail)
        interrupted = interrupted or status in ('killed', 'error')
        if ctx.violations:
            return
        if last:
            break
    # ---- finally, a resumed run has to end with all outputs and nothing else
    before = snapshot(out)
    status, _ = fork_run(pipe, src, out, xml, opts + ['--resume', '--num-workers', '2'], ('none', None))
    history.append({'final': status})
    ctx.event('runs')
    after = snapshot(out)
    detail = dict(pipe=pipe.name, history=history)
    ctx.require(status == 'ok', 'run-failed', **detail)
    for n in names:
        if n in before:
            ctx.require(after.get(n) == before[n], 'existing-output-written-again', name=n, **detail)
        else:
            ctx.require(n in after and after[n][2] == expected[n], 'output-not-complete', name=n,
                        expected=expected[n], actual=after.get(n), **detail)
    # what an interrupted run may have left under another name of its own is allowed to stay
    # only if no resumed run had to write that document
    for n in after:
        if n not in names:
            owner = [x for x in names if x in n]
            ctx.require(interrupted and owner and owner[0] in before, 'unexpected-files', files=sorted(after), **detail)
    if interrupted:
        ctx.event('resumed-after-fault')
        ctx.distinct(pipe.name, history)

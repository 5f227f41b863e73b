"""C17 approximate search"""
RULE = (
    'texts of 0 to several search windows with a known number of occurrences of a value: verbatim, with white space added or '
    'removed, with a few wrong, missing or additional letters, in two pieces, or absent, at any position (also across window borders), for thresholds '
    '0.7-0.95, with start position, short values as whole word or part of a word; plus arbitrary texts for the soundness of whatever is returned; '
    'oracle: exact ranges by construction, independent similarity (longest common subsequence) of every returned range; '
    'non-trivial: text longer than the value'
)
PLAN = {'quick': 6000, 'thorough': 80000}
REQUIRED_EVENTS = {
    'verbatim': 400, 'noisy': 200, 'absent': 200, 'spaces': 100, 'pieces': 80, 'short': 200, 'repeated': 150, 'shifted': 200, 'arbitrary': 200,
    'several-windows': 400, 'start-index': 200, 'near-border': 100,
}
LETTERS = 'abcdefghijklmnopqrstuvwxyz'
OTHER = '\u03b1\u03b2\u03b3\u03b4\u03b5\u03b6\u03b7\u03b8\u03b9\u03ba\u03bb\u03bc\u03bd\u03be\u03bf'


def words(rng, n, alphabet, low=2, high=9, sep=' '):
    """text of about n characters"""
    out = []
    size = 0
    while size < n:
        w = ''.join(rng.choice(alphabet) for _ in range(rng.randint(low, high)))
        out.append(w)
        size += len(w) + 1
    return sep.join(out)[:n].rstrip() if n else ''


def lcs(a, b):
    row = [0] * (len(b) + 1)
    for x in a:
        prev = 0
        for j, y in enumerate(b):
            keep = row[j + 1]
            row[j + 1] = prev + 1 if x == y else max(row[j + 1], row[j])
            prev = keep
    return row[-1]


def squeeze(s):
    return ''.join(s.split())


def sound(ctx, haystack, needle, threshold, ranges, start_index, kind):
    """whatever is returned lies in the text, not before the start, and is similar enough"""
    for a, b in ranges:
        if not ctx.require(start_index <= a < b <= len(haystack), 'range-not-in-text', ranges=repr(ranges), length=len(haystack), start=start_index,
                           case=kind, haystack=haystack, needle=needle):
            return False
    # (with only a handful of different letters the local alignment below counts letters of the value more than once)
    if len(ranges) == 1 and len(set(needle + haystack)) > 10 and not set('.,*') & set(needle + haystack):
        a, b = ranges[0]
        x, y = squeeze(haystack[a:b]), squeeze(needle)
        if len(x) * len(y) < 400000:
            common = lcs(x, y)
            ratio = common / (len(y) + max(0, len(x) - common))
            return ctx.require(ratio >= threshold - 1e-9, 'range-not-similar', found=haystack[a:b], needle=needle, ratio=ratio, threshold=threshold,
                               case=kind)
    return True


def setup_worker():
    import sciencebeam_trainer_grobid_tools.utils.fuzzy  # noqa  pylint: disable=unused-import


def search(ctx, haystack, needle, threshold, **kwargs):
    from sciencebeam_trainer_grobid_tools.utils import fuzzy
    result = fuzzy.fuzzy_search_index_range_chunks(haystack, needle, threshold=threshold, **kwargs)
    if 'max_chunks' not in kwargs:
        single = fuzzy.fuzzy_search_index_range(haystack, needle, threshold=threshold, **kwargs)
        ctx.require((single is None) == (not result) and (not result or tuple(result[0]) == tuple(single)),
                    'search-variants-differ', chunks=repr(result), single=repr(single), haystack=haystack, needle=needle)
    if len(haystack) > 1000:
        ctx.event('several-windows')
    return [tuple(r) for r in result or []]


def filler(rng, needle_alphabet, disjoint):
    def make(n):
        return words(rng, n, OTHER if disjoint else needle_alphabet)
    return make


def noisy(rng, needle, amount):
    """wrong, missing, additional letters inside, well apart from each other and from both ends"""
    chars = list(needle)
    step = max(12, int(len(needle) / max(1, amount)))
    positions = [p for p in range(6, len(needle) - 6, step)][:amount]
    for p in reversed(positions):
        if chars[p] == ' ':
            p += 1
        if chars[p] == ' ' or p >= len(chars) - 5:
            continue
        op = rng.choice('sdi')
        if op == 's':
            chars[p] = '\u00e6'
        elif op == 'd':
            if chars[p - 1] in (' ', chars[p]) or chars[p + 1] in (' ', chars[p]):
                continue
            del chars[p]
        else:
            chars.insert(p, '\u00e6')
    return ''.join(chars)


def lengths(rng, ctx, needle):
    """amount of text before; sometimes so that the value stands around the end of a window"""
    if rng.random() < 0.3:
        ctx.event('near-border')
        return max(0, rng.choice([1000, 2000, 1000 + 4 * len(needle), 4 * len(needle), 3 * len(needle)]) - rng.randint(0, 2 * len(needle) + 20))
    return rng.choice([0, 0, 1, 5, 30, 200, 700, 1000, 1500, 2500, 4000])


def run_case(ctx):
    rng = ctx.rng
    kind = rng.choice(['verbatim', 'verbatim', 'noisy', 'absent', 'spaces', 'pieces', 'short', 'repeated', 'shifted', 'arbitrary'])
    ctx.event(kind)
    threshold = rng.choice([0.8, 0.8, 0.8, 0.7, 0.9, 0.95])
    n = rng.choice([5, 6, 8, 12, 20, 40, 80, 200, 400, 700])
    alphabet = LETTERS
    CASES[kind](ctx, rng, threshold, n, alphabet)


def joined(before, value, after, rng):
    left = rng.choice([' ', '\n', ' ']) if before else ''
    right = rng.choice([' ', '\n', ' ']) if after else ''
    start = len(before) + len(left)
    return before + left + value + right + after, (start, start + len(value))


def value(rng, n, alphabet):
    v = words(rng, n, alphabet)
    while len(squeeze(v)) < 5:
        v += rng.choice(alphabet)
    return v


def with_start(ctx, rng, before):
    if before and rng.random() < 0.3:
        ctx.event('start-index')
        return {'start_index': rng.randint(1, len(before))}
    return {}


def verbatim(ctx, rng, threshold, n, alphabet):
    v = value(rng, n, alphabet)
    fill = filler(rng, alphabet, len(v) < 12 or rng.random() < 0.5)
    before, after = fill(lengths(rng, ctx, v)), fill(rng.choice([0, 0, 3, 50, 900, 1500]))
    # the same letters next to it could as well be taken for the letters of the value
    before = before[:-8] + ''.join(c if c == ' ' or c not in v[:8] else '\u03b1' for c in before[-8:])
    after = ''.join(c if c == ' ' or c not in v[-8:] else '\u03b1' for c in after[:8]) + after[8:]
    text, expected = joined(before, v, after, rng)
    kwargs = with_start(ctx, rng, before)
    if rng.random() < 0.3:
        kwargs['max_chunks'] = 2
    found = search(ctx, text, v, threshold, **kwargs)
    ctx.distinct(len(text), len(v), expected, threshold)
    ctx.require(found == [expected], 'occurrence-not-found-exactly', case='verbatim', found=repr(found), expected=expected, haystack=text, needle=v,
                threshold=threshold, kwargs=repr(kwargs))
    sound(ctx, text, v, threshold, found, kwargs.get('start_index', 0), 'verbatim')
    if rng.random() < 0.2:
        # nothing behind it
        found = search(ctx, text, v, threshold, start_index=expected[1]) if len(text) - expected[1] >= 5 else []
        ctx.event('start-index')
        ctx.require(not found, 'found-before-start', found=repr(found), expected=expected, haystack=text, needle=v)


def noisy_case(ctx, rng, threshold, n, alphabet):
    threshold = min(threshold, 0.8)
    v = value(rng, max(n, 30), alphabet)
    w = noisy(rng, v, max(1, int(len(squeeze(v)) / 25)))
    fill = filler(rng, alphabet, True)
    before, after = fill(lengths(rng, ctx, v)), fill(rng.choice([0, 0, 3, 50, 900, 1500]))
    text, expected = joined(before, w, after, rng)
    kwargs = with_start(ctx, rng, before)
    if rng.random() < 0.3:
        kwargs['max_chunks'] = 2
    found = search(ctx, text, v, threshold, **kwargs)
    ctx.distinct(len(text), len(v), expected, threshold)
    ctx.require(found == [expected], 'occurrence-not-found-exactly', case='noisy', found=repr(found), expected=expected, haystack=text, needle=v,
                threshold=threshold, kwargs=repr(kwargs))
    sound(ctx, text, v, threshold, found, kwargs.get('start_index', 0), 'noisy')


def spaces(ctx, rng, threshold, n, alphabet):
    v = value(rng, n, alphabet)
    w = ''
    for i, c in enumerate(v):
        if c == ' ':
            w += rng.choice([' ', '\n', '  ', '', ' \n'])
        else:
            w += c
            if 0 < i < len(v) - 1 and v[i + 1] != ' ' and rng.random() < 0.05:
                w += rng.choice([' ', '\n'])
    if rng.random() < 0.3:
        v, w = w, v
    fill = filler(rng, alphabet, True)
    before, after = fill(lengths(rng, ctx, v)), fill(rng.choice([0, 0, 3, 50, 900, 1500]))
    text, expected = joined(before, w, after, rng)
    kwargs = with_start(ctx, rng, before)
    found = search(ctx, text, v, threshold, **kwargs)
    ctx.distinct(len(text), len(v), expected, threshold)
    ctx.require(found == [expected], 'occurrence-not-found-exactly', case='spaces', found=repr(found), expected=expected, haystack=text, needle=v,
                threshold=threshold, kwargs=repr(kwargs))


def absent(ctx, rng, threshold, n, alphabet):
    v = value(rng, n, alphabet)
    disjoint = len(v) < 40 or rng.random() < 0.4
    text = filler(rng, alphabet, disjoint)(rng.choice([5, 30, 300, 1000, 1500, 3000]))
    kind = rng.choice(['other', 'half', 'part'])
    if kind == 'half' and len(v) >= 12:
        # too little of it is there
        keep = v[:len(v) // 2].rstrip()
        text, _ = joined(text, keep, filler(rng, alphabet, True)(rng.choice([0, 5, 200])), rng)
    elif kind == 'part' and len(v) >= 12:
        keep = v[len(v) // 2:].lstrip()
        text, _ = joined(filler(rng, alphabet, True)(rng.choice([0, 5, 1200])), keep, text, rng)
    kwargs = {'max_chunks': 2} if rng.random() < 0.2 and kind == 'other' and disjoint else {}
    found = search(ctx, text, v, threshold, **kwargs)
    ctx.distinct(len(text), len(v), threshold, kind)
    ctx.require(not found, 'found-what-is-not-there', case=kind, found=repr(found), haystack=text, needle=v, threshold=threshold)


def pieces(ctx, rng, threshold, n, alphabet):
    # neither alone is similar enough
    size = rng.choice([20, 40, 80, 200])
    v1 = value(rng, size, LETTERS[:13])
    v2 = value(rng, int(size * rng.choice([0.75, 1, 1.3])), LETTERS[13:])
    v = v1 + ' ' + v2
    fill = filler(rng, alphabet, True)
    gap = fill(rng.choice([len(v), 2 * len(v), 500, 1500]))
    text, r1 = joined(fill(rng.choice([0, 20, 300, 1200])), v1, '', rng)
    text, r2 = joined(text + rng.choice([' ', '\n']) + gap, v2, fill(rng.choice([0, 20, 300, 1200])), rng)
    chunks = rng.choice([2, 2, 3])
    found = search(ctx, text, v, threshold, max_chunks=chunks)
    ctx.distinct(len(text), len(v), r1, r2)
    ctx.require(found == [r1, r2], 'pieces-not-found-exactly', found=repr(found), expected=repr([r1, r2]), haystack=text, needle=v, threshold=threshold)
    single = search(ctx, text, v, threshold)
    sound(ctx, text, v, threshold, single, 0, 'pieces-single')


SEPARATORS = ' .,-:;()[]\n\t'


def short(ctx, rng, threshold, n, alphabet):
    v = ''.join(rng.choice(LETTERS[:6] + '0123456789') for _ in range(rng.choice([1, 2, 3, 4, 4])))
    others = [w for w in words(rng, rng.choice([10, 60, 400, 3000]), LETTERS[:8] + '0123').split() if w != v]
    # part of longer words, different case
    for _ in range(rng.randint(0, 3)):
        others.insert(rng.randint(0, len(others)), rng.choice([v + 'x', 'x' + v, 'x' + v + 'y', v + '/' + v, v + '_']))
    there = rng.random() < 0.7
    if rng.random() < 0.2:
        others = others[:1]
    at = rng.randint(0, len(others)) if there else None
    expected = None
    text = ''
    for i in range(len(others) + 1):
        if i == at:
            text += rng.choice(['', '(', '[', '-'])
            expected = (len(text), len(text) + len(v))
            text += v + rng.choice(['', '.', ',', ')', ':', ';'])
            if i < len(others):
                text += rng.choice(' \n')
        if i < len(others):
            text += others[i] + rng.choice([' ', ' ', '\n', ', ', '. '])
    kwargs = {}
    if rng.random() < 0.2:
        kwargs['max_chunks'] = 2
    found = search(ctx, text, v, threshold, **kwargs)
    ctx.distinct(v, expected, len(text))
    ctx.require(found == ([expected] if expected else []), 'short-value', found=repr(found), expected=repr(expected), haystack=text, needle=v)
    if expected and rng.random() < 0.3:
        ctx.event('start-index')
        start = rng.randint(0, expected[0])
        found = search(ctx, text, v, threshold, start_index=start)
        ctx.require(found == [expected] or (start and text[start - 1] not in SEPARATORS), 'short-value', found=repr(found), expected=repr(expected), haystack=text,
                    needle=v, start=start)


def repeated(ctx, rng, threshold, n, alphabet):
    from sciencebeam_trainer_grobid_tools.utils import fuzzy
    is_short = rng.random() < 0.4
    v = ''.join(rng.choice(LETTERS) for _ in range(rng.choice([2, 3, 4]))) if is_short else value(rng, min(n, 80), alphabet)
    fill = filler(rng, alphabet, True)
    text = fill(rng.choice([0, 3, 40, 900]))
    expected = []
    for _ in range(rng.randint(1, 5)):
        text, r = joined(text, v, '', rng)
        expected.append(r)
        text, _ = joined(text, fill(rng.choice([3, 10, 60, 600, 1100])), '', rng)
    found = [tuple(r) for r in fuzzy.iter_fuzzy_search_all_index_ranges(text, v, threshold)]
    if len(text) > 1000:
        ctx.event('several-windows')
    ctx.distinct(len(text), expected, len(v))
    ctx.require(found == expected, 'not-every-occurrence', found=repr(found), expected=repr(expected), haystack=text, needle=v, threshold=threshold)
    first = search(ctx, text, v, threshold)
    ctx.require(first == expected[:1], 'not-the-first-occurrence', found=repr(first), expected=repr(expected), haystack=text, needle=v)


def shifted(ctx, rng, threshold, n, alphabet):
    """the same in more unrelated text"""
    threshold = min(threshold, 0.8)
    v = value(rng, max(n, 30), alphabet)
    w = noisy(rng, v, max(1, int(len(squeeze(v)) / 20)))
    before, after = words(rng, rng.choice([0, 3, 20]), OTHER), words(rng, rng.choice([0, 3, 20]), OTHER)
    text, _ = joined(before, w, after, rng)
    base = search(ctx, text, v, threshold)
    left, right = words(rng, lengths(rng, ctx, v), OTHER), words(rng, rng.choice([0, 1, 300, 1000, 2500]), OTHER)
    big = (left + ' ' if left else '') + text + (' ' + right if right else '')
    offset = len(left) + 1 if left else 0
    found = search(ctx, big, v, threshold)
    ctx.distinct(len(text), len(v), offset)
    ctx.require(found == [(a + offset, b + offset) for a, b in base], 'depends-on-unrelated-text', base=repr(base), found=repr(found), offset=offset,
                haystack=big, needle=v, threshold=threshold)


def arbitrary(ctx, rng, threshold, n, alphabet):
    small = rng.choice(['ab', 'abc ', 'abcdef. ', LETTERS + '  .,*-\n\t()', 'a\u00e9\u4e2d .'])
    text = ''.join(rng.choice(small) for _ in range(rng.choice([0, 1, 4, 5, 30, 200, 1100])))
    v = ''.join(rng.choice(small) for _ in range(rng.choice([1, 4, 5, 9, 40])))
    if rng.random() < 0.4 and len(text) > 12:
        i = rng.randint(0, len(text) - 10)
        v = text[i:i + rng.randint(5, 60)]
    kwargs = {}
    if rng.random() < 0.4:
        kwargs['max_chunks'] = rng.choice([1, 2, 3])
    start = 0
    if rng.random() < 0.3 and text:
        start = kwargs['start_index'] = rng.randint(0, len(text))
    if not v.strip():
        v = 'a'
    try:
        found = search(ctx, text, v, threshold, **kwargs)
    except Exception as exc:  # pylint: disable=broad-except
        ctx.violation('search-failed', error=repr(exc), haystack=text, needle=v, threshold=threshold, kwargs=repr(kwargs))
        return
    ctx.event('arbitrary-found', bool(found))
    ctx.distinct(text, v, threshold)
    sound(ctx, text, v, threshold, found, start, 'arbitrary')


CASES = {
    'verbatim': verbatim, 'noisy': noisy_case, 'absent': absent, 'spaces': spaces, 'pieces': pieces, 'short': short,
    'repeated': repeated, 'shifted': shifted, 'arbitrary': arbitrary,
}

"""Generators: pseudo-word vocabularies, GROBID training TEI containers and JATS
target documents."""
from xml.sax.saxutils import escape, quoteattr

CONS = 'bcdfghjklmnprstvwz'
VOWS = 'aeiou'
# words start and end with different letters: approximate matching may not slide
# over the border of two words
STARTS = 'bcdfghjklm'
ENDS = 'nprstvwz'


def esc(s):
    return escape(s)


class Vocab:
    """Pseudo-words that are unique within one document and share no long
    substrings, so that a text identifies where it came from."""

    def __init__(self, rng):
        self.rng = rng
        self.used = set()

    def word(self, lo=5, hi=10):
        while True:
            n = self.rng.randint(lo, hi)
            w = ''.join(
                self.rng.choice(CONS if i % 2 == 0 else VOWS) for i in range(n)
            )
            # break the strict alternation now and then
            if self.rng.random() < 0.5:
                i = self.rng.randrange(n)
                w = w[:i] + self.rng.choice(CONS) + w[i + 1:]
            w = self.rng.choice(STARTS) + w[1:-1] + self.rng.choice(ENDS)
            if w[1] == w[0] or w[-2] == w[-1]:
                continue
            if w[:5] in self.used or w in STOP:
                continue
            self.used.add(w[:5])
            return w

    def words(self, n, lo=5, hi=10):
        return [self.word(lo, hi) for _ in range(n)]

    def phrase(self, n, lo=5, hi=10, cap=True):
        ws = self.words(n, lo, hi)
        if cap:
            ws[0] = ws[0].capitalize()
        return ' '.join(ws)

    def name(self):
        return self.word(6, 10).capitalize()

    def sentence(self, n):
        ws = self.words(n)
        out = []
        for i, w in enumerate(ws):
            if i == 0:
                w = w.capitalize()
            if 0 < i < n - 1 and self.rng.random() < 0.12:
                w = w + self.rng.choice([',', ';', ':'])
            out.append(w)
        return ' '.join(out) + '.'

    def paragraph(self, n_sentences, n_words=8):
        return ' '.join(
            self.sentence(self.rng.randint(max(3, n_words - 3), n_words + 3))
            for _ in range(n_sentences)
        )

    def number(self, digits):
        while True:
            s = str(self.rng.randrange(10 ** (digits - 1), 10 ** digits))
            if s not in self.used:
                self.used.add(s)
                return s


STOP = {'abstract', 'summary', 'figure', 'table', 'keywords', 'keyword'}


def wrap_lines(rng, text, lo=25, hi=70):
    """Break a text into lines at blanks."""
    width = rng.randint(lo, hi)
    lines = []
    cur = ''
    for w in text.split(' '):
        if cur and len(cur) + 1 + len(w) > width:
            lines.append(cur)
            cur = w
        else:
            cur = cur + ' ' + w if cur else w
    if cur:
        lines.append(cur)
    return lines


# ---------------------------------------------------------------- containers

LB = object()


def open_tag(e):
    """e: expression like note[@type="other"]"""
    if '[' in e:
        name, rest = e.split('[', 1)
        key, value = rest[1:-1].split('=', 1)
        return '<%s %s=%s>' % (name, key, quoteattr(value[1:-1])), name
    return '<%s>' % e, e


def render(items, rng=None, lb='<lb/>', trailing_newline=True, lead='\n'):
    """items: sequence of LB or (path, group, text); path: tuple of expressions.
    Equal path and group continue the open element; LB stays inside the element
    that is open."""
    out = [lead]
    cur = ()       # open path
    cur_group = None
    names = []

    def close_to(n):
        while len(names) > n:
            out.append('</%s>' % names.pop())

    for item in items:
        if item is LB:
            out.append(lb if isinstance(lb, str) else rng.choice(lb))
            continue
        path, group, text = item
        if path != cur or group != cur_group:
            common = 0
            if group == cur_group:
                while common < min(len(path), len(cur)) and path[common] == cur[common]:
                    common += 1
            close_to(common)
            for e in path[common:]:
                tag, name = open_tag(e)
                out.append(tag)
                names.append(name)
            cur, cur_group = path, group
        out.append(esc(text))
    close_to(0)
    if trailing_newline:
        out.append('\n')
    return ''.join(out)


def lines_to_items(lines, path=(), group=0, final_lb=True):
    items = []
    for i, line in enumerate(lines):
        items.append((path, group, line))
        if i < len(lines) - 1 or final_lb:
            items.append(LB)
            items.append((path, group, '\n') if i < len(lines) - 1 else ((), group, '\n'))
    return items


# ---------------------------------------------------------------- JATS

class El:
    """Tiny JATS tree: children are strings or El."""

    def __init__(self, tag, *children, **attrs):
        self.tag = tag
        self.children = list(children)
        self.attrs = {k.rstrip('_').replace('__', ':').replace('_', '-'): v for k, v in attrs.items()}

    def xml(self):
        a = ''.join(' %s=%s' % (k, quoteattr(v)) for k, v in self.attrs.items())
        if not self.children:
            return '<%s%s/>' % (self.tag, a)
        return '<%s%s>%s</%s>' % (self.tag, a, ''.join(
            esc(c) if isinstance(c, str) else c.xml() for c in self.children
        ), self.tag)

    def text(self):
        return ''.join(c if isinstance(c, str) else c.text() for c in self.children)


class Jats:
    def __init__(self):
        self.journal_meta = []
        self.article_meta = []
        self.body = []
        self.back = []

    def xml(self, decl=True):
        root = El(
            'article',
            El('front', El('journal-meta', *self.journal_meta), El('article-meta', *self.article_meta)),
            El('body', *self.body),
            El('back', *self.back)
        )
        root.attrs['xmlns:xlink'] = 'http://www.w3.org/1999/xlink'
        return ('<?xml version="1.0" encoding="UTF-8"?>\n' if decl else '') + root.xml() + '\n'

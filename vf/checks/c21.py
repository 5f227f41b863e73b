"""C21 values of the target document"""
import os
import re

RULE = (
    'target documents built from a tree with known values: (a) JATS articles with all the fields of the default mapping (nested sections, lists, '
    'figures, boxes, appendices, structured and mixed affiliations and references, label/title combinations, page ranges) and (b) arbitrary '
    'documents with a generated mapping (paths, predicates, children, concatenation, ranges, unmatched parent text, regular expressions, ignored '
    'elements, sub fields, priorities, flags); written plainly or with comments, processing instructions, CDATA, character and entity references '
    'and other white space; oracle: values computed from the tree, not from the XML, in document order and by priority; '
    'non-trivial: document with values'
)
PLAN = {'quick': 2500, 'thorough': 40000}
REQUIRED_EVENTS = {
    'default': 600, 'generic': 600, 'noisy': 800, 'comment': 800, 'mixed': 300, 'children-values': 300, 'ignored': 200, 'sub-values': 800,
    'range': 100, 'concat': 300, 'priority': 200, 'regex': 80, 'decoy': 200, 'cdata': 100, 'entity': 100, 'spaces': 300, 'wrong-root': 30,
}


class N:
    """an element: items are texts and elements"""
    def __init__(self, tag, *items, **attrs):
        self.tag = tag
        self.items = list(items)
        self.attrs = {k.replace('_', '-'): v for k, v in attrs.items()}
        self.parent = None

    def add(self, *items):
        self.items.extend(items)
        return self

    @property
    def kids(self):
        return [x for x in self.items if isinstance(x, N)]

    def link(self):
        for k in self.kids:
            k.parent = self
            k.link()
        return self

    def walk(self):
        yield self
        for k in self.kids:
            yield from k.walk()

    @property
    def up(self):
        """tags of the ancestors, nearest first"""
        out, n = [], self.parent
        while n is not None:
            out.append(n.tag)
            n = n.parent
        return out

    @property
    def path(self):
        return '/'.join(reversed([self.tag] + self.up[:-1])) if self.parent is not None else ''

    def inside(self, tag):
        return tag in self.up


BORDER = '\x00'


def text(node, skip=()):
    """the text with a mark at each border of an element"""
    out = []
    for x in node.items:
        if isinstance(x, N):
            out.append(BORDER)
            if not any(x is s for s in skip):
                out.append(text(x, skip))
            out.append(BORDER)
        else:
            out.append(x)
    return ''.join(out)


def is_mixed(node):
    """text next to elements"""
    def has_text(n):
        return any(isinstance(x, str) and x.strip() for x in n.items)
    return has_text(node) or any(k.kids and is_mixed(k) for k in node.kids)


# ---- expected values

class V:
    """an expected text"""
    def __init__(self, marked, spaced=False, exact=False):
        self.marked = marked
        self.spaced = spaced  # a space between words of different elements
        self.exact = exact

    @property
    def key(self):
        return ''.join(self.marked.replace(BORDER, '').split())

    def agrees(self, actual, loose):
        """loose: positions where comments may have separated letters are not known"""
        gap, chars = set(), []
        for c in self.marked:
            if c == BORDER:
                gap.add('border')
            elif c.isspace():
                gap.add('space')
            else:
                chars.append((frozenset(gap), c))
                gap = set()
        gap, found = False, []
        for c in actual:
            if c.isspace():
                gap = True
            else:
                found.append((gap, c))
                gap = False
        if [c for _, c in chars] != [c for _, c in found]:
            return False
        prev = None
        for (want, c), (got, _) in zip(chars, found):
            if prev is not None:
                if 'space' in want:
                    if not got:
                        return False
                elif 'border' in want:
                    if self.spaced and re.match(r'\w\w', prev + c) and not got:
                        return False
                elif got and not loose:
                    return False
            prev = c
        return True


class Want:
    def __init__(self, name, values, subs=(), priority=0, pos=0, flags=(), nr=0):
        self.name, self.values, self.subs = name, values, list(subs)
        self.priority, self.pos, self.nr = priority, pos, nr
        self.flags = flags

    def show(self):
        return [self.name, [v.marked for v in self.values], [(n, [x.marked for x in vs]) for n, vs in self.subs]]


def compare(ctx, wants, found, loose, **detail):
    """all expected values, and nothing else, in the order of priority and document"""
    shown = [[a.name, a.value, [(s.name, s.value) for s in a.sub_annotations or []]] for a in found]
    detail = dict(detail, expected=repr([w.show() for w in wants]).replace('\\x00', '|'), found=repr(shown))
    if not ctx.require([w.name for w in wants] == [a.name for a in found], 'fields-or-order', **detail):
        return
    for w, a in zip(wants, found):
        one = dict(detail, which=repr(w.show()).replace('\\x00', '|'), got=repr(a.value))
        if not same_values(w.values, a.value, loose):
            ctx.violation('value-differs', **one)
            return
        subs = [(s.name, s.value) for s in a.sub_annotations or []]
        ok = [n for n, _ in w.subs] == [n for n, _ in subs] and all(same_values(vs, v, loose, by_length=False) for (_, vs), (_, v) in zip(w.subs, subs))
        ctx.event('sub-values', len(w.subs))
        if not ctx.require(ok, 'sub-values-differ', subs=repr(subs), **one):
            return
        if w.flags and not ctx.require((a.match_multiple, a.bonding) == w.flags[:2] and (len(w.flags) < 3 or a.require_next == w.flags[2]),
                                       'flags-differ', flags=repr((a.match_multiple, a.bonding, a.require_next)), **one):
            return


def same_values(wanted, value, loose, by_length=True):
    values = [value] if isinstance(value, str) else list(value)
    if len(wanted) != len(values):
        return False
    if isinstance(value, str) != (len(wanted) == 1):
        return False
    if by_length and [len(s) for s in values] != sorted((len(s) for s in values), reverse=True):
        return False
    # (values may differ in nothing but their spaces: the strictest first)
    left = sorted(wanted, key=lambda v: (-len(v.marked.split()), v.marked.count(BORDER)))
    for v in left:
        found = [s for s in values if v.agrees(s, loose) and s == s.strip()]
        if not found:
            return False
        values.remove(found[0])
    return True


# ---- writing the tree

class Writer:
    def __init__(self, rng, noisy, ctx, keep=()):
        self.rng, self.noisy, self.ctx = rng, noisy, ctx
        self.keep = keep  # tags whose text has to stay as it is
        self.comment_in_word = False
        self.entities = {}

    def misc(self):
        self.ctx.event('comment')
        r = self.rng
        return r.choice(['<!--%s-->', '<!-- %s -->', '<?%s?>']) % ' '.join(r.choice(['remark', 'todo', 'note']) for _ in range(r.randint(1, 2)))

    def string(self, s, plain):
        r = self.rng
        if not self.noisy or plain:
            return esc(s)
        out = []
        for part in re.split(r'(\s+)', s):
            if not part:
                continue
            if part.isspace():
                if r.random() < 0.15:
                    self.ctx.event('spaces')
                    part = r.choice(['\n', '  ', '\n      ', '\t', ' \n'])
                out.append(part)
                if r.random() < 0.05:
                    out.append(self.misc())
                continue
            x = r.random()
            if x < 0.05:
                self.ctx.event('cdata')
                out.append('<![CDATA[%s]]>' % part)
            elif x < 0.1:
                i = r.randrange(len(part))
                out.append(esc(part[:i]) + r.choice(['&#%d;', '&#x%x;']) % ord(part[i]) + esc(part[i + 1:]))
            elif x < 0.13:
                self.ctx.event('entity')
                name = 'e%d' % len(self.entities)
                self.entities[name] = part
                out.append('&%s;' % name)
            elif x < 0.15 and len(part) > 1:
                self.comment_in_word = True
                i = r.randrange(1, len(part))
                out.append(esc(part[:i]) + self.misc() + esc(part[i:]))
            else:
                out.append(esc(part))
        return ''.join(out)

    def node(self, n, depth=0):
        plain = n.tag in self.keep
        r = self.rng
        attrs = ''.join(' %s="%s"' % (k, esc(v).replace('"', '&quot;')) for k, v in n.attrs.items())
        spaced = self.noisy and n.kids and len(n.kids) == len(n.items) and r.random() < 0.5 and not plain

        def between():
            s = ''
            if spaced:
                s += r.choice(['\n' + ' ' * depth, ' ', '\n\n'])
            if self.noisy and not plain and r.random() < 0.08:
                s += self.misc()
            return s
        body = between()
        for x in n.items:
            body += (self.node(x, depth + 1) if isinstance(x, N) else self.string(x, plain)) + between()
        if not body and r.random() < 0.5:
            return '<%s%s/>' % (n.tag, attrs)
        return '<%s%s>%s</%s>' % (n.tag, attrs, body, n.tag)

    def document(self, root):
        body = self.node(root)
        dtd = ''
        if self.entities:
            dtd = '<!DOCTYPE %s [%s]>\n' % (root.tag, ''.join('<!ENTITY %s "%s">' % (
                k, esc(v).replace('"', '&#34;').replace('%', '&#37;')) for k, v in self.entities.items()))
        return '<?xml version="1.0" encoding="UTF-8"?>\n' + dtd + body


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


SYL = ['ba', 'ko', 'mi', 'tu', 're', 'lan', 'dor', 'ves', 'qui', 'sha', 'Ã©', '\u03b1']


class Words:
    def __init__(self, rng):
        self.rng = rng

    def word(self):
        r = self.rng
        w = ''.join(r.choice(SYL[:10] if r.random() < 0.9 else SYL) for _ in range(r.randint(1, 4)))
        return w.capitalize() if r.random() < 0.3 else w

    def phrase(self, low=1, high=6):
        r = self.rng
        out = ' '.join(self.word() for _ in range(r.randint(low, high)))
        if r.random() < 0.1:
            out += r.choice([' & ', ' < ', ' > ', ', ', ' - ', ' (x) ']) + self.word()
        return out + (r.choice(['.', '?', ':']) if r.random() < 0.2 else '')

    def inline(self, low=2, high=8):
        """text with formatting"""
        r = self.rng
        out = [self.phrase(low, high)]
        for _ in range(r.choice([0, 0, 1, 2])):
            out.append(r.choice(['', ' ', ' ']))
            out.append(N(r.choice(['italic', 'bold', 'sup', 'sub']), self.phrase(1, 2)))
            out.append(r.choice(['', ' ', ', ', '']) + (self.phrase(1, 4) if r.random() < 0.8 else ''))
        return [x for x in out if x != '']


# ---- (a) the default mapping

XREF = {'bib': 'bibr', 'figure': 'fig', 'table': 'table', 'formula': 'disp-formula', 'section': 'sec', 'box': 'boxed-text'}
XREF_ORDER = ['bib', 'figure', 'table', 'formula', 'section', 'box']


class Article:
    def __init__(self, rng):
        self.rng = rng
        self.w = Words(rng)

    def p(self, depth=0):
        r = self.rng
        items = self.w.inline()
        for _ in range(r.choice([0, 0, 1, 2])):
            items += [' ', N('xref', self.w.phrase(1, 2), ref_type=r.choice(list(XREF.values()) + ['fn'])), r.choice([' ', ', ']) + self.w.phrase(1, 3)]
        if depth < 3 and r.random() < 0.25:
            items += [r.choice([self.list_, self.fig, self.table])(depth + 1)]
            if r.random() < 0.6:
                items += [r.choice(['', ' ']) + self.w.phrase(1, 3)]
        return N('p', *items)

    def list_(self, depth=0):
        r = self.rng
        n = N('list')
        if r.random() < 0.4:
            n.add(N('label', self.w.phrase(1, 2)))
        if r.random() < 0.4:
            n.add(N('title', *self.w.inline(1, 4)))
        for _ in range(r.randint(1, 3)):
            item = N('list-item')
            if r.random() < 0.3:
                item.add(N('label', r.choice(['1', 'a', '-'])))
            for _ in range(r.randint(1, 2)):
                item.add(self.p(depth + 1))
            if depth < 3 and r.random() < 0.2:
                item.add(r.choice([self.list_, self.fig, self.table])(depth + 1))
            n.add(item)
        return n

    def captioned(self, tag, depth):
        r = self.rng
        n = N(tag)
        if r.random() < 0.7:
            n.add(N('label', r.choice(['Figure 1', 'Table 2', 'Box 3', 'F4'])) if r.random() < 0.95 else N('label'))
        if r.random() < 0.8:
            cap = N('caption')
            if r.random() < 0.6:
                cap.add(N('title', *self.w.inline(1, 4)))
            for _ in range(r.randint(0, 2)):
                cap.add(N('p', *self.w.inline()))
            n.add(cap)
        return n

    def fig(self, depth=0):
        n = self.captioned('fig', depth)
        return n.add(N('graphic', href='x')) if self.rng.random() < 0.5 else n

    def table(self, depth=0):
        n = self.captioned('table-wrap', depth)
        if self.rng.random() < 0.5:
            n.add(N('table', N('tr', N('td', self.w.phrase()), N('td', self.w.phrase()))))
        return n

    def box(self, depth=0):
        n = self.captioned('boxed-text', depth)
        for _ in range(self.rng.randint(0, 2)):
            n.add(self.p(depth + 1))
        return n

    def sec(self, depth=0):
        r = self.rng
        n = N('sec')
        if r.random() < 0.4:
            n.add(N('label', r.choice(['1', '1.', '2.1', 'A'])))
        if r.random() < 0.9:
            n.add(N('title', *self.w.inline(1, 4)))
        self.blocks(n, depth)
        return n

    def blocks(self, n, depth):
        r = self.rng
        for _ in range(r.randint(0, 4)):
            make = r.choice([self.p, self.p, self.p, self.fig, self.table, self.list_, self.box, self.sec])
            if make == self.sec and depth >= 2:
                make = self.p
            n.add(make(depth + 1))

    def name(self, tag='name'):
        r = self.rng
        parts = [N('surname', self.w.word().capitalize()), N('given-names', r.choice(['J', 'A B', 'Maria']))]
        if r.random() < 0.3:
            parts.reverse()
        if r.random() < 0.2:
            parts.append(N('suffix', 'Jr'))
        if tag == 'string-name':
            return N(tag, parts[0], r.choice([' ', ', ']), *parts[1:])
        return N(tag, *parts)

    def aff(self):
        r = self.rng
        mixed = r.random() < 0.5
        parts = []
        if r.random() < 0.6:
            parts.append(N('label', N('sup', '1')) if r.random() < 0.2 else N('label', str(r.randint(1, 9))))
        if r.random() < 0.3:
            parts.append(N('addr-line', N('named-content', self.w.phrase(2, 3), content_type='department')))
        for _ in range(r.choice([1, 1, 2])):
            parts.append(N('institution', self.w.phrase(2, 4)))
        line = N('addr-line')
        for t in ('city', 'postcode', 'state', 'street'):
            if r.random() < 0.4:
                if mixed and line.items:
                    line.add(', ')
                line.add(N('named-content', self.w.phrase(1, 2), content_type=t))
        if line.items:
            parts.append(line)
        if r.random() < 0.6:
            parts.append(N('country', r.choice(['USA', 'France', 'South Africa'])))
        if r.random() < 0.3:
            parts.append(N('email', 'someone@example.org'))
        n = N('aff')
        for i, x in enumerate(parts):
            if i and mixed:
                n.add(r.choice([', ', '; ', ' and ', '']))
            n.add(x)
        if mixed and r.random() < 0.3:
            n.add(', ' + self.w.phrase(1, 3))
        n.items = [x for x in n.items if x != '']
        return n

    def ref(self):
        r = self.rng
        mixed = r.random() < 0.5
        n = N('ref')
        if r.random() < 0.5:
            n.add(N('label', r.choice(['1', '[2]', '3.'])))
        parts = []
        if r.random() < 0.3:
            parts.append(N('person-group', self.name('string-name' if mixed else 'name'), person_group_type=r.choice(['author', 'editor'])))
        else:
            for _ in range(r.randint(1, 3)):
                parts.append(self.name('string-name' if mixed else 'name'))
        if r.random() < 0.2:
            parts.append(N('etal', 'et al.'))
        for t, p in (('year', 0.9), ('article-title', 0.8), ('source', 0.8), ('publisher-name', 0.2), ('publisher-loc', 0.2),
                     ('volume', 0.6), ('issue', 0.3), ('fpage', 0.7), ('lpage', 0.6), ('issn', 0.1), ('isbn', 0.1)):
            if r.random() < p:
                s = {'year': '1998', 'fpage': str(r.randint(1, 400)), 'lpage': 'e' + str(r.randint(401, 900)), 'volume': '12', 'issue': '4',
                     'issn': '1234-5678', 'isbn': '978-1-23'}.get(t)
                parts.append(N(t, s if s else self.w.phrase(2, 5)))
        for t in ('doi', 'pii', 'pmid', 'pmcid', 'arXiv', 'other'):
            if r.random() < 0.15:
                parts.append(N('pub-id', '10.1234/' + self.w.word(), pub_id_type=t))
        if r.random() < 0.2:
            parts.append(N('ext-link', 'http://example.org/' + self.w.word(), ext_link_type='uri'))
        if r.random() < 0.2:
            r.shuffle(parts)
        c = N('mixed-citation' if mixed else 'element-citation')
        for i, x in enumerate(parts):
            if i and mixed:
                c.add(r.choice([', ', '. ', ' ', ' (', ')']))
            c.add(x)
        return n.add(c)

    def build(self):
        r = self.rng
        w = self.w
        meta = N('article-meta')
        jm = N('journal-meta', N('journal-title-group', N('journal-title', *w.inline(1, 4))))
        for t in r.sample(['epub', 'ppub', None], r.randint(0, 3)):
            jm.add(N('issn', '1234-567%d' % r.randint(0, 9), **({'pub-id-type': t} if t else {})))
        front = N('front', *([jm] if r.random() < 0.7 else []), meta)
        parts = []
        for t in r.sample(['doi', 'pmid', 'publisher-id'], r.randint(0, 3)):
            parts.append(N('article-id', '10.1234/' + w.word(), pub_id_type=t))
        if r.random() < 0.4:
            parts.append(N('article-categories', N('subj-group', N('subject', w.phrase(), subj_group_type=r.choice(['display-channel', 'heading'])))))
        parts.append(N('title-group', N('article-title', *w.inline(2, 10)), *([N('subtitle', w.phrase())] if r.random() < 0.2 else [])))
        if r.random() < 0.8:
            g = N('contrib-group')
            for _ in range(r.randint(1, 4)):
                kind = r.choice(['author', 'author', 'editor', None])
                c = N('contrib', self.name(), **({'contrib-type': kind} if kind else {}))
                if r.random() < 0.2:
                    c.add(self.aff())
                g.add(c)
            if r.random() < 0.4:
                g.add(self.aff())
            parts.append(g)
        for _ in range(r.randint(0, 3)):
            parts.append(self.aff())
        if r.random() < 0.4:
            parts.append(N('author-notes', *[N(r.choice(['corresp', 'fn']), *w.inline()) for _ in range(r.randint(1, 3))]))
        pages = r.random()
        if pages < 0.5:
            low = r.randint(1, 300)
            parts.append(N('fpage', str(low)))
            if pages < 0.4:
                parts.append(N('lpage', str(low + r.choice([0, 1, 5, 20])) if r.random() < 0.7 else r.choice(['e12', '%d' % max(1, low // 2)])))
        if r.random() < 0.4:
            parts.append(N('permissions', N('copyright-statement', *w.inline())))
        if r.random() < 0.8:
            parts.append(N('abstract', *([N('title', 'Abstract')] if r.random() < 0.3 else []),
                           *[N('p', *w.inline(3, 20)) for _ in range(r.randint(1, 3))]))
        if r.random() < 0.5:
            for _ in range(r.choice([1, 1, 2])):
                g = N('kwd-group')
                if r.random() < 0.5:
                    g.add(N('title', 'Keywords'))
                for _ in range(r.randint(0, 4)):
                    kind = r.choice([None, None, None, 'author-keywords', 'other'])
                    g.add(N('kwd', w.phrase(1, 2), **({'kwd-group-type': kind} if kind else {})))
                parts.append(g)
        if r.random() < 0.3:
            r.shuffle(parts)
        meta.add(*parts)
        body = N('body')
        for _ in range(r.randint(0, 4)):
            body.add(r.choice([self.p, self.sec, self.sec, self.fig, self.table, self.list_, self.box])())
        back = N('back')
        for _ in range(r.randint(0, 4)):
            k = r.random()
            if k < 0.25:
                ack = N('ack')
                if r.random() < 0.7:
                    ack.add(N('title', 'Acknowledgements'))
                for _ in range(r.randint(0, 2)):
                    ack.add(self.p(2) if r.random() < 0.7 else self.sec(2))
                back.add(ack)
            elif k < 0.5:
                app = N('app-group')
                if r.random() < 0.6:
                    app.add(N('title', *w.inline(1, 3)))
                for _ in range(r.randint(1, 2)):
                    a = N('app')
                    if r.random() < 0.6:
                        a.add(N('title', *w.inline(1, 3)))
                    self.blocks(a, 1)
                    app.add(a)
                back.add(app)
            elif k < 0.75:
                back.add(r.choice([self.sec, self.p, self.fig, self.table, self.box])(1))
            else:
                rl = N('ref-list')
                if r.random() < 0.6:
                    rl.add(N('title', 'References'))
                for _ in range(r.randint(0, 4)):
                    rl.add(self.ref())
                back.add(rl)
        return N('article', front, body, back).link()


AFF = ('front/article-meta/contrib-group/aff', 'front/article-meta/contrib-group/contrib/aff', 'front/article-meta/aff')


def expected_default(root, ctx):
    order = list(root.walk())
    out = []

    def add(name, node, values, subs=(), priority=0, flags=()):
        values = [v for v in values if v.key]
        if values:
            subs = [(n, [v]) for n, v in subs if v.key]
            out.append(Want(name, values, subs, priority, order.index(node), flags, len(out)))
            if priority:
                ctx.event('priority')

    def full(name, node, skip=(), **kw):
        if skip:
            ctx.event('ignored')
        add(name, node, [V(text(node, skip), spaced=True)], **kw)

    def child(node, tag):
        return [k for k in node.kids if k.tag == tag]

    def desc(node, tag, **attrs):
        return [k for k in node.walk() if k is not node and k.tag == tag and all(k.attrs.get(a.replace('_', '-')) == v for a, v in attrs.items())]

    def join(nodes):
        return ' '.join(text(n).strip() for n in nodes)

    def two(node, a, b):
        """both parts as one text, otherwise the one that is there"""
        x, y = child(node, a), child(node, b)
        if x and y:
            ctx.event('concat')
            return [V(join(x) + ' ' + join(y))]
        return [V(text(n)) for n in node.kids if n.tag in (a, b)]

    def xrefs(node, prefix):
        return [('%s-xref-%s' % (prefix, k), V(text(x))) for k in XREF_ORDER for x in desc(node, 'xref', ref_type=XREF[k])]

    def leaves(node, pages=False):
        """values of the parts of an entry, or its text if there is text around the parts"""
        if is_mixed(node):
            ctx.event('mixed')
            return [V(text(node), spaced=True)]
        ctx.event('children-values')
        f, l = desc(node, 'fpage'), desc(node, 'lpage')
        used = f + l if pages and f and l else []
        values = [V(text(k)) for k in node.walk() if k is not node and not k.kids and not any(k is u for u in used)]
        if used:
            values.append(V(join(f) + '-' + join(l)))
        return values

    def floats(node, name, sub=True):
        subs = [(name + '-label', V(text(x))) for x in child(node, 'label')] + [(name + '-caption', V(text(x))) for x in child(node, 'caption')]
        add(name, node, two(node, 'label', 'caption'), subs if sub else (), 1)

    for node in order:
        path, tag, parent = node.path, node.tag, node.parent.tag if node.parent is not None else None
        where = path.split('/')[0]
        # in the order of the configuration
        for name, p, attrs in (
                ('title', 'front/article-meta/title-group/article-title', {}),
                ('abstract', 'front/article-meta/abstract', {}),
                ('journal', 'front/journal-meta/journal-title-group/journal-title', {}),
                ('issn', 'front/journal-meta/issn', {'pub-id-type': 'epub'}),
                ('doi', 'front/article-meta/article-id', {'pub-id-type': 'doi'}),
                ('copyright_statement', 'front/article-meta/permissions/copyright-statement', {}),
                ('keywords_title', 'front/article-meta/kwd-group/title', {})):
            if path == p and all(node.attrs.get(k) == v for k, v in attrs.items()):
                full(name, node)
        if path == 'front/article-meta/kwd-group':
            kwds = [k for k in child(node, 'kwd') if k.attrs.get('kwd-group-type') in (None, 'author-keywords')]
            add('keywords', node, [V(join(kwds))])
        if path == 'front/article-meta/article-categories/subj-group/subject' and node.attrs.get('subj-group-type') == 'display-channel':
            full('manuscript_type', node)
        if path.startswith('front/article-meta/author-notes/') and path.count('/') == 3:
            full('author_notes', node)
        if path == 'front/article-meta/contrib-group/contrib/name' and node.parent.attrs.get('contrib-type') in (None, 'author'):
            add('author', node, leaves(node), flags=(True, True))
        if path in AFF:
            subs = [('author_aff-label', x) for x in child(node, 'label')]
            lines = [n for x in child(node, 'addr-line') for n in child(x, 'named-content')]

            def line(t, lines=lines):
                return [n for n in lines if n.attrs.get('content-type') == t]
            subs += [('author_aff-department', n) for n in line('department')]
            subs += [('author_aff-institution', n) for n in child(node, 'institution')]
            for t in ('city', 'postcode', 'state'):
                subs += [('author_aff-address-' + t, n) for n in line(t)]
            subs += [('author_aff-address-country', n) for n in child(node, 'country')]
            add('author_aff', node, leaves(node), [(n, V(text(x))) for n, x in subs], flags=(True, True))
        if tag == 'email' and node.parent.path in AFF:
            full('email', node)
        if (tag == 'sec' and where in ('body', 'back')) or (tag == 'ack' and where == 'back'):
            add('section_title', node, two(node, 'label', 'title') if child(node, 'title') else [])
        if tag == 'p' and (parent in ('sec', 'ack') or path == 'body/p'):
            skip = desc(node, 'list') + child(node, 'fig') + child(node, 'table-wrap')
            full('section_paragraph', node, skip, subs=xrefs(node, 'section_paragraph'))
        if tag == 'title' and parent == 'sec' and where == 'body':
            full('body_section_title', node)
        if tag == 'title' and parent == 'sec' and where == 'back' and not node.inside('ack'):
            full('back_section_title', node)
        if tag == 'p' and where == 'body':
            full('body_section_paragraph', node)
        if tag == 'p' and where == 'back' and not node.inside('ack') and (parent == 'sec' or not node.inside('sec')):
            full('back_section_paragraph', node)
        if node.inside('ack') and tag in ('title', 'p'):
            full('acknowledgment_section_title' if tag == 'title' else 'acknowledgment_section_paragraph', node)
        if tag == 'boxed-text':
            add('boxed_text_title', node, two(node, 'label', 'caption'))
        if tag == 'p' and node.inside('boxed-text'):
            skip = desc(node, 'list') + child(node, 'fig') + child(node, 'table-wrap')
            full('boxed_text_paragraph', node, skip, subs=xrefs(node, 'boxed_text_paragraph'))
        if tag == 'list':
            add('list', node, [V(text(k)) for k in node.kids if k.tag != 'list-item'])
        if tag == 'list-item':
            skip = desc(node, 'fig') + child(node, 'table-wrap')
            full('list_item', node, skip, subs=xrefs(node, 'list_item'))
        if tag == 'title' and parent == 'app-group':
            full('appendix_group_title', node)
        if tag == 'app':
            full('appendix', node)
        for t, name in (('fig', 'figure'), ('table-wrap', 'table')):
            if tag == t:
                floats(node, name)
                if where in ('body', 'back'):
                    floats(node, where + '_' + name, False)
        if path == 'back/ref-list/title':
            full('reference_list_title', node)
        if path == 'back/ref-list/ref':
            subs = []
            for name, nodes in (
                    ('article-title', desc(node, 'article-title')),
                    ('author', [n for n in desc(node, 'string-name') if not n.inside('person-group')]),
                    ('editor', [n for n in desc(node, 'string-name') if n.parent.attrs.get('person-group-type') == 'editor']),
                    *[(t, desc(node, t)) for t in ('source', 'publisher-name', 'publisher-loc', 'etal', 'issn', 'isbn')],
                    *[(t.lower(), desc(node, 'pub-id', pub_id_type=t)) for t in ('doi', 'pii', 'pmid', 'pmcid', 'arXiv')]):
                subs += [('reference-' + name, V(text(n))) for n in nodes]
            subs += [('ext-link', V(text(n))) for n in desc(node, 'ext-link')]
            for t in ('year', 'volume', 'issue', 'fpage', 'lpage'):
                subs += [('reference-' + t, V(text(n))) for n in desc(node, t)]
            subs += [('reference-label', V(text(n))) for n in child(node, 'label')]
            add('reference', node, leaves(node, True), subs, flags=(False, True))
        if path == 'front/article-meta':
            f, l = child(node, 'fpage'), child(node, 'lpage')
            nums = [text(x) for x in f + l]
            if f and l and all(x.isdigit() for x in nums) and int(nums[0]) <= int(nums[1]):
                ctx.event('range')
                for i in range(int(nums[0]), int(nums[1]) + 1):
                    add('page_no', node, [V(str(i))])
            else:
                add('page_no', node, [V(x) for x in nums])
    return sorted_wants(out, DEFAULT_ORDER)


DEFAULT_ORDER = (
    'title abstract journal issn doi copyright_statement keywords_title keywords manuscript_type author_notes author author_aff email '
    'section_title section_paragraph body_section_title back_section_title body_section_paragraph back_section_paragraph '
    'acknowledgment_section_title acknowledgment_section_paragraph boxed_text_title boxed_text_paragraph list list_item appendix_group_title '
    'appendix figure body_figure back_figure table body_table back_table reference_list_title reference page_no'
).split()


def sorted_wants(wants, order):
    return sorted(wants, key=lambda w: (-w.priority, w.pos, order.index(w.name), w.nr))


# ---- (b) generated mappings

KINDS = ('text', 'text', 'ignore', 'wild', 'wild', 'wild-raw', 'select', 'concat', 'range', 'regex', 'extract', 'unmatched', 'deep')


class Generic:
    def __init__(self, rng, ctx):
        self.rng, self.ctx = rng, ctx
        self.w = Words(rng)
        self.mapping = {}
        self.fields = []
        self.keep = set()
        self.root_tag = rng.choice(['article', 'doc', 'record'])

    def make_fields(self):
        r = self.rng
        places = ['a', 'b', 'a/c', 'b/d/e']
        for i in range(r.randint(2, 7)):
            name = 'field%s%s' % (r.choice(['', '_']), i)
            f = {'name': name, 'kind': r.choice(KINDS), 'tag': 'el%d' % i, 'places': r.sample(places, r.choice([1, 1, 2])), 'nr': i}
            f['type'] = r.choice([None, None, None, 'x'])
            f['priority'] = r.choice([0, 0, 0, 1, 2])
            f['flags'] = tuple(r.random() < 0.4 for _ in range(3))
            pred = '[@type="x"]' if f['type'] else ''
            style = r.choice(['full', 'full', 'dot', 'any', 'any-dot'])
            if style in ('full', 'dot'):
                paths = [('./' if style == 'dot' else '') + p + '/' + f['tag'] + pred for p in f['places']]
                if len(paths) > 1 and r.random() < 0.5:
                    paths = [' | '.join(paths)]
            else:
                paths = [('//' if style == 'any' else './/') + f['tag'] + pred]
                f['anywhere'] = True
            self.mapping[name] = '\n' + '\n'.join('  ' + p for p in paths) if len(paths) > 1 else paths[0]
            kind = f['kind']

            def put(suffix, value, name=name):
                self.mapping[name + suffix] = value
            if kind == 'ignore':
                put('.ignore', r.choice(['.//note', './/note|.//skip', './/note\n.//skip']))
                f['skip'] = {'note'} if 'skip' not in self.mapping[name + '.ignore'] else {'note', 'skip'}
            elif kind in ('wild', 'wild-raw'):
                put('.children', './/*')
                if kind == 'wild-raw':
                    f['raw'] = r.random() < 0.5
                    put('.use-raw-text', r.choice(['true', 'yes', '1'] if f['raw'] else ['false', 'no', '0']))
            elif kind == 'select':
                put('.children', r.choice(['./x', 'x', './x | ./y', './x\n./y', 'x|y']))
                f['select'] = ['x', 'y'] if 'y' in self.mapping[name + '.children'] else ['x']
                f['union'] = '|' in self.mapping[name + '.children']
            elif kind == 'concat':
                put('.children', './x | ./y | ./z')
                groups = [['x', 'y']] if r.random() < 0.6 else [['x', 'y'], ['z']]
                f['groups'] = groups
                f['glue'] = r.choice([' ', '-', ', ', None])
                import json
                put('.children.concat', json.dumps([
                    [y for i, t in enumerate(g) for y in (([{'value': f['glue']}] if i and f['glue'] else []) + [{'xpath': './' + t}])]
                    for g in groups]))
            elif kind == 'range':
                put('.children', 'min|max')
                f['standalone'] = r.random() < 0.5
                import json
                put('.children.range', json.dumps([dict(
                    {'min': {'xpath': 'min'}, 'max': {'xpath': 'max'}}, **({'standalone': True} if f['standalone'] else {}))]))
            elif kind == 'regex':
                put('.regex', r'No (\d+).*')
                self.keep.add(f['tag'])
            elif kind == 'extract':
                put('.extract-regex', r'.*\b(\d+)\b.*')
                self.keep.add(f['tag'])
            elif kind == 'deep':
                self.keep.add('group')
                put('.children', r.choice(['./group/x\n./group', './group | ./group/x', './group\n./group/x', './/x | .//group', './/x\n.//group']))
            elif kind == 'unmatched':
                put('.children', './x')
                put('.unmatched-parent-text', 'true')
            f['subs'] = []
            if kind != 'extract':
                for t in ('x', 'y'):
                    if r.random() < 0.4:
                        f['subs'].append((name + '-' + t, t))
                        put('.sub.%s-%s' % (name, t), r.choice(['./', './/']) + t)
                        if r.random() < 0.3:
                            put('.sub.%s-%s.extract-regex' % (name, t), r'.*\b(\d+)\b.*')
                            f['numbered'] = f.get('numbered', ()) + (t,)
                            self.keep.add(t)
            if f['priority'] or r.random() < 0.2:
                put('.priority', str(f['priority']))
            for suffix, on in zip(('.match-multiple', '.bonding', '.require-next'), f['flags']):
                if on or r.random() < 0.2:
                    put(suffix, 'true' if on else 'false')
            if r.random() < 0.2:
                put('.unknown', 'value')
            self.fields.append(f)

    def element(self, f):
        r, w = self.rng, self.w
        n = N(f['tag'])
        kind = f['kind']

        def leaf(t):
            if t in f.get('numbered', ()):
                return N(t, self.with_number())
            return N(t, w.phrase(1, 4))
        if kind == 'text':
            n.add(*w.inline())
            if r.random() < 0.4:
                n.add(' ', leaf('x'), r.choice(['', ', ']), leaf('y'))
        elif kind == 'ignore':
            n.add(*w.inline(1, 4))
            for _ in range(r.randint(1, 4)):
                n.add(N(r.choice(['note', 'skip', 'x', 'other']), *(w.inline(1, 3) + ([leaf('note')] if r.random() < 0.3 else []))))
                if r.random() < 0.7:
                    n.add(r.choice(['', ' ']) + w.phrase(1, 3))
        elif kind in ('wild', 'wild-raw'):
            mixed = r.random() < 0.4
            for i in range(r.randint(1, 4)):
                if i and mixed:
                    n.add(r.choice([', ', ' ', ' and ']))
                n.add(leaf(r.choice('xyz')) if r.random() < 0.7 else N('group', leaf('x'), *([' ; '] if mixed else []), leaf('w')))
        elif kind in ('select', 'concat', 'unmatched'):
            for t in 'xyz':
                for _ in range(r.choice([0, 1, 1, 1, 2])):
                    n.add(leaf(t))
                    if kind == 'unmatched' and r.random() < 0.5:
                        n.add(r.choice([', ', ' ']) + w.phrase(1, 2))
            if kind == 'select':
                r.shuffle(n.items)
        elif kind == 'range':
            low = r.randint(1, 50)
            n.add(N('min', r.choice([str(low), str(low), 'e1'])))
            if r.random() < 0.8:
                n.add(N('max', str(low + r.randint(-3, 6))))
        elif kind == 'regex':
            n.add(r.choice(['No %d', 'No %d of the list', 'Number %d', '%d No']) % r.randint(1, 99))
        elif kind == 'extract':
            n.add(self.with_number())
        elif kind == 'deep':
            for _ in range(r.randint(1, 4)):
                group = N('group', *([w.phrase(1, 2) + ' '] if r.random() < 0.5 else []))
                for _ in range(r.choice([0, 1, 2, 3])):
                    group.add(leaf('x'))
                    if r.random() < 0.7:
                        group.add(r.choice([', ', ' and ', ' ', ' ' + w.phrase(1, 2)]))
                n.add(group)
                if r.random() < 0.3:
                    n.add(leaf('y'))
        return n

    def with_number(self):
        return self.rng.choice(['%s 12 %s', '%s 7', '%s', '34 %s', '%s (56) %s']).replace('%s', self.w.word() + 'a')

    @staticmethod
    def extracted(s):
        """the number, what is before and after it, and all of it"""
        m = re.search(r'\b[0-9]+\b', s)
        if not m:
            return [V(s)]
        # (the character after the number is not part of anything)
        return [V(x) for x in (s[:m.start()].strip(), m.group(0), s[m.end() + 1:].strip(), s) if x]

    def want(self, f, n):
        """values: list of V; alone: values of their own"""
        kind = f['kind']
        raw = V(text(n), spaced=True)
        kids = n.kids

        def join(nodes):
            return ' '.join(text(k).strip() for k in nodes)

        if kind == 'text':
            return [raw], []
        if kind == 'ignore':
            skip = [k for k in n.walk() if k is not n and k.tag in f['skip']]
            if skip:
                self.ctx.event('ignored')
            return [V(text(n, skip), spaced=True)], []
        if kind in ('wild', 'wild-raw'):
            if f.get('raw', is_mixed(n)):
                self.ctx.event('mixed')
                return [raw], []
            self.ctx.event('children-values')
            leaves = [V(text(k)) for k in n.walk() if k is not n and not k.kids]
            # (text between the parts of a group is a value as well)
            return leaves + [V(s) for k in n.walk() if k is not n and k.kids for s in k.items if isinstance(s, str)], []
        if kind == 'select':
            return [V(text(k)) for k in kids if k.tag in f['select']], []
        if kind == 'deep':
            values = []
            for k in kids:
                if k.tag == 'group':
                    inner = [i for i in k.items if isinstance(i, N)]
                    values += [V(text(i)) for i in inner]
                    # (text between the parts of a group is a value as well)
                    values += [V(i) for i in k.items if isinstance(i, str)] if inner else [V(text(k))]
            return values, []
        if kind == 'unmatched':
            x = [k for k in kids if k.tag == 'x']
            values = [V(text(k)) for k in x]
            rest = V(text(n, x))
            if rest.key and rest.marked.replace(BORDER, '').split() not in [v.marked.replace(BORDER, '').split() for v in values]:
                values.append(rest)
            return values, []
        if kind == 'concat':
            used, values = set(), []
            for g in f['groups']:
                found = [[k for k in kids if k.tag == t] for t in g]
                if all(found):
                    self.ctx.event('concat')
                    used |= set(g)
                    values.append(V((f['glue'] or BORDER).join(join(x) for x in found)))
            return [V(text(k)) for k in kids if k.tag not in used] + values, []
        if kind == 'range':
            nums = [text(k) for k in kids]
            if len(nums) == 2 and all(x.isdigit() for x in nums) and int(nums[0]) <= int(nums[1]):
                self.ctx.event('range')
                numbers = [V(str(x)) for x in range(int(nums[0]), int(nums[1]) + 1)]
                return ([], numbers) if f['standalone'] else (numbers, [])
            return [V(x) for x in nums], []
        s = text(n)
        if kind == 'regex':
            self.ctx.event('regex')
            words = s.split()
            return [V(words[1]) if words[0] == 'No' and len(words) > 1 else V(s)], []
        return self.extracted(s), []

    def build(self):
        r = self.rng
        tree = {'': N(self.root_tag)}

        def place(path):
            if path not in tree:
                up, _, tag = path.rpartition('/')
                tree[path] = N(tag)
                place(up).add(tree[path])
            return tree[path]
        paths = ['a', 'b', 'a/c', 'b/d/e', 'b/d']
        r.shuffle(paths)
        for p in paths:
            place(p)
        made = []
        for _ in range(r.randint(2, 12)):
            f = r.choice(self.fields)
            n = self.element(f)
            n.field = f
            n.wanted = True
            where = r.choice(f['places'])
            if f['type']:
                n.attrs['type'] = f['type']
                if r.random() < 0.3:
                    n.wanted = False
                    self.ctx.event('decoy')
                    n.attrs['type'] = 'other'
            elif r.random() < 0.2:
                n.attrs['type'] = r.choice(['x', 'other'])
            if r.random() < 0.15:
                where = r.choice(paths)
                if where not in f['places'] and not f.get('anywhere'):
                    self.ctx.event('decoy')
                    n.wanted = False
            made.append(n)
            place(where).add(n)
            if r.random() < 0.3:
                place(r.choice(paths)).add(N('other', *self.w.inline()))
        root = tree[''].link()
        order = list(root.walk())
        wants = []
        for n in made:
            if not n.wanted:
                continue
            f = n.field
            values, alone = self.want(f, n)
            subs = [(name, self.extracted(text(k)) if t in f.get('numbered', ()) else [V(text(k))]) for name, t in f['subs'] for k in n.walk() if k is not n and k.tag == t and
                    ('//' in self.mapping['%s.sub.%s' % (f['name'], name)] or k.parent is n)]
            pos = order.index(n)
            values = [v for v in values if v.key]
            if values:
                wants.append(Want(f['name'], values, subs, f['priority'], pos, f['flags'], len(wants)))
            for v in alone:
                wants.append(Want(f['name'], [v], subs, f['priority'], pos, f['flags'][:2], len(wants)))
            if f['priority'] and (values or alone):
                self.ctx.event('priority')
        return root, sorted_wants(wants, [f['name'] for f in self.fields])

    def config(self):
        lines = ['[other]', 'title = a/title', '', '[%s]' % self.root_tag]
        for k, v in self.mapping.items():
            if self.rng.random() < 0.1:
                lines.append('# %s' % k)
            lines.append('%s = %s' % (k, v.replace('\n', '\n  ').replace('%', '%%')))
        return '\n'.join(lines) + '\n'


# ---- cases

def setup_worker():
    import sciencebeam_trainer_grobid_tools.auto_annotate_header  # noqa  pylint: disable=unused-import


def values_of(xml_path, mapping_path):
    from sciencebeam_trainer_grobid_tools.annotation.target_annotation import xml_root_to_target_annotations
    from sciencebeam_trainer_grobid_tools.core.annotation.target_annotation import parse_xml_mapping
    from sciencebeam_trainer_grobid_tools.utils.xml import parse_xml
    return xml_root_to_target_annotations(parse_xml(xml_path).getroot(), parse_xml_mapping(mapping_path))


def run_case(ctx):
    rng = ctx.rng
    d = ctx.new_dir()
    noisy = rng.random() < 0.6
    keep = ()
    generic = rng.random() < 0.5
    if generic:
        ctx.event('generic')
        g = Generic(rng, ctx)
        g.make_fields()
        root, wants = g.build()
        keep = g.keep
        mapping_path = os.path.join(d, 'mapping.conf')
        config = g.config()
        with open(mapping_path, 'w', encoding='utf-8') as f:
            f.write(config)
    else:
        ctx.event('default')
        root = Article(rng).build()
        wants = expected_default(root, ctx)
        from vf import core
        mapping_path = os.path.join(core.REPO, 'config', 'xml-mapping.conf')
        config = None
    writer = Writer(rng, noisy, ctx, keep)
    xml = writer.document(root)
    if noisy:
        ctx.event('noisy')
    path = os.path.join(d, 'target.xml')
    with open(path, 'w', encoding='utf-8') as f:
        f.write(xml)
    found = values_of(path, mapping_path)
    compare(ctx, wants, found, writer.comment_in_word, xml=xml, mapping=config)
    if wants:
        ctx.distinct(xml)
    if generic and rng.random() < 0.1:
        # a document of a kind the mapping does not know is an error that says so
        ctx.event('wrong-root')
        other = os.path.join(d, 'other.xml')
        with open(other, 'w', encoding='utf-8') as f:
            f.write(Writer(rng, False, ctx).document(N('unknown-root', root)))
        try:
            values = values_of(other, mapping_path)
            ctx.violation('unknown-document-accepted', values=repr(values))
        except Exception as e:  # pylint: disable=broad-except
            ctx.require('unknown-root' in str(e), 'unknown-document-not-named', error=repr(e))

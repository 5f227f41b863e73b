"""Independent reading of GROBID training TEI: what text, with which labels and
line breaks, a file contains. Shares no code with the repository."""
import re

from lxml import etree

TEI_NS = 'http://www.tei-c.org/ns/1.0'
XML_NS = 'http://www.w3.org/XML/1998/namespace'


def parse(path):
    return etree.parse(path, etree.XMLParser(resolve_entities=False, huge_tree=True)).getroot()


def local(tag):
    return tag.rsplit('}', 1)[-1] if isinstance(tag, str) else None


def containers(root, path):
    """path: list of local names below the root"""
    nodes = [root]
    for name in path:
        nodes = [c for n in nodes for c in n if local(c.tag) == name]
    return nodes


def expr(el):
    attribs = sorted(
        (k.replace('{%s}' % XML_NS, 'xml:'), v) for k, v in el.attrib.items()
    )
    return local(el.tag) + ''.join('[@%s="%s"]' % kv for kv in attribs)


class Flat:
    """Flattened container: one entry per non-blank character."""

    def __init__(self):
        self.chars = []      # non-blank characters
        self.paths = []      # tuple of expressions, container exclusive
        self.ids = []        # tuple of element ordinals along the path
        self.gap = []        # blank text (without lb) before char i
        self.lbs = []        # offset in chars of each line break
        self.lb_paths = []   # path of each line break
        self.elements = []   # (path, ordinal) of every element, in document order
        self._pending = ''
        self.trailing = ''

    @property
    def text(self):
        """Text with every run of blanks / line breaks collapsed to one space."""
        lbs = set(self.lbs)
        out = []
        for i, c in enumerate(self.chars):
            if i and (self.gap[i] or i in lbs):
                out.append(' ')
            out.append(c)
        return ''.join(out)

    @property
    def dense(self):
        return ''.join(self.chars)

    def label_of(self, i):
        return self.paths[i]

    def lines(self):
        """List of (start, end) char ranges between line breaks."""
        out = []
        prev = 0
        for lb in self.lbs:
            out.append((prev, lb))
            prev = lb
        out.append((prev, len(self.chars)))
        return out

    def runs(self):
        """Maximal runs with the same element instance: (path, id, start, end)"""
        out = []
        for i in range(len(self.chars)):
            if out and out[-1][1] == self.ids[i]:
                out[-1][3] = i + 1
            else:
                out.append([self.paths[i], self.ids[i], i, i + 1])
        return [tuple(r) for r in out]

    def slice_text(self, start, end):
        end = min(end, len(self.chars))
        lbs = set(self.lbs)
        out = []
        for i in range(start, end):
            if i > start and (self.gap[i] or i in lbs):
                out.append(' ')
            out.append(self.chars[i])
        return ''.join(out)


def flatten(nodes, include_tail=False):
    flat = Flat()
    counter = [0]

    def add_text(text, path, ids):
        if not text:
            return
        for c in text:
            if c.isspace():
                flat._pending += c
            else:
                flat.chars.append(c)
                flat.paths.append(path)
                flat.ids.append(ids)
                flat.gap.append(flat._pending)
                flat._pending = ''

    def walk(el, path, ids):
        add_text(el.text, path, ids)
        for child in el:
            if not isinstance(child.tag, str):
                add_text(child.tail, path, ids)
                continue
            if local(child.tag) == 'lb':
                flat.lbs.append(len(flat.chars))
                flat.lb_paths.append(path)
                add_text(child.text, path, ids)
                add_text(child.tail, path, ids)
                continue
            counter[0] += 1
            child_path = path + (expr(child),)
            child_ids = ids + (counter[0],)
            flat.elements.append((child_path, child_ids))
            walk(child, child_path, child_ids)
            add_text(child.tail, path, ids)

    for node in nodes:
        walk(node, (), ())
        if include_tail:
            add_text(node.tail, (), ())
    flat.trailing = flat._pending
    return flat


def flatten_file(path, container_path):
    return flatten(containers(parse(path), container_path))


def outside_repr(root, container_path):
    """Canonical representation of everything but the content of the containers.
    Whitespace-only tails/texts are normalised to a marker-free form because
    indentation around an emptied container is not content."""
    keep = list(containers(root, container_path))  # keep proxies alive: ids stay unique
    nodes = {id(n) for n in keep}

    def rep(el):
        keep.append(el)
        if not isinstance(el.tag, str):
            return ('#special', str(el.tag), el.text, (el.tail or '').strip())
        children = []
        if id(el) not in nodes:
            children = [rep(c) for c in el]
            text = (el.text or '').strip()
        else:
            text = '#container'
        return (el.tag, tuple(sorted(el.attrib.items())), text,
                tuple(children), (el.tail or '').strip())

    return rep(root)


def collapse(text):
    return re.sub(r'\s+', ' ', text).strip()

"""Driver and observers of the JATS fixing command (fix_jats_xml)."""
import gzip
import importlib
import os

from lxml import etree

MODULE = 'sciencebeam_trainer_grobid_tools.fix_jats_xml'
XLINK = 'http://www.w3.org/1999/xlink'
HREF = '{%s}href' % XLINK
META = 'custom-meta-group'


def module():
    return importlib.import_module(MODULE)


def main(argv):
    """-> error or None"""
    try:
        module().main(list(argv))
    except SystemExit as exc:
        if exc.code:
            return exc
    except Exception as exc:  # pylint: disable=broad-except
        return exc
    return None


def read(path):
    with open(path, 'rb') as f:
        data = f.read()
    if path.endswith('.gz'):
        data = gzip.decompress(data)
    return data


def parse(data):
    return etree.fromstring(data).getroottree()


def fix_text(ctx, data):
    """One document through the command -> (error, output bytes or None)"""
    src = ctx.new_dir('src')
    out = ctx.new_dir('out')
    with open(os.path.join(src, 'doc.xml'), 'wb') as f:
        f.write(data)
    error = main(['--source-path', os.path.join(src, 'doc.xml'), '--output-path', out])
    path = os.path.join(out, 'doc.xml')
    return error, (read(path) if os.path.exists(path) else None)


def meta(root):
    """The record of the run: list of (name, value), for the one group at the start of the document"""
    group = root.find(META)
    if group is None:
        return []
    return [
        (item.findtext('meta-name'), item.findtext('meta-value'))
        for item in group.findall('custom-meta')]


def without_meta(root):
    """Takes away what the command adds to record its run."""
    group = root.find(META)
    if group is None:
        return root
    for item in list(group.findall('custom-meta')):
        if (item.findtext('meta-name') or '').startswith('fix-jats-'):
            group.remove(item)
    if not len(group):
        root.remove(group)
    return root


def stream(node):
    """Text in document order, with comments and processing instructions as marks;
    neighbouring pieces of text are joined."""
    out = []

    def text(value):
        if value:
            if out and isinstance(out[-1], str):
                out[-1] += value
            else:
                out.append(value)

    def walk(e):
        if e.tag is etree.Comment:
            out.append(('comment', e.text or ''))
        elif e.tag is etree.ProcessingInstruction:
            out.append(('pi', e.target, e.text or ''))
        else:
            text(e.text)
            for child in e:
                walk(child)
                text(child.tail)
    walk(node)
    return out


def canonical(node):
    """Structure of an element without its tail (tags, attributes, text, comments)."""
    def walk(e):
        if e.tag is etree.Comment:
            return ('comment', e.text or '')
        if e.tag is etree.ProcessingInstruction:
            return ('pi', e.target, e.text or '')
        children = [(walk(c), c.tail or '') for c in e]
        return (e.tag, tuple(sorted(e.attrib.items())), e.text or '', tuple(children))
    return walk(node)


def refs(root):
    return root.xpath('.//back/ref-list/ref')

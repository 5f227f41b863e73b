"""The eight annotation commands, driven through their public command line."""
import glob
import importlib
import os

from vf import tei

CONFIG = os.environ.get('VF_REPO', '/repo') + '/config/xml-mapping.conf'
SEG_CONFIG = os.environ.get('VF_REPO', '/repo') + '/config/segmentation.conf'


class Pipe:
    def __init__(self, name, module, suffix, container, namespaced=False, extra=()):
        self.name = name
        self.module_name = 'sciencebeam_trainer_grobid_tools.' + module
        self.suffix = suffix
        self.container = container
        self.namespaced = namespaced
        self.extra = list(extra)

    @property
    def module(self):
        return importlib.import_module(self.module_name)

    def argv(self, src, out, xml, extra=()):
        return [
            '--source-base-path', src,
            '--output-path', out,
            '--xml-path', xml,
            '--xml-filename-regex', r'/(.*)%s.*/\1.xml/' % self.suffix.replace('.', r'\.'),
            '--xml-mapping-path', CONFIG,
        ] + self.extra + list(extra)

    def main(self, argv):
        self.module.main(argv)

    def wrap(self, content, rng=None, attrs=''):
        """content: xml string of the container's content -> whole document"""
        return wrap_document(self, content, rng)


PIPES = {p.name: p for p in [
    Pipe('header', 'auto_annotate_header', '.header.tei.xml', ['text', 'front']),
    Pipe('segmentation', 'auto_annotate_segmentation', '.segmentation.tei.xml', ['text'],
         extra=['--segmentation-config', SEG_CONFIG]),
    Pipe('fulltext', 'auto_annotate_fulltext', '.fulltext.tei.xml', ['text']),
    Pipe('reference', 'auto_annotate_reference', '.references.tei.xml',
         ['text', 'back', 'listBibl'], namespaced=True),
    Pipe('reference_segmenter', 'auto_annotate_reference_segmenter',
         '.references.referenceSegmenter.tei.xml', ['text']),
    Pipe('affiliation', 'auto_annotate_affiliation_address', '.affiliation.tei.xml',
         ['teiHeader', 'fileDesc', 'sourceDesc', 'biblStruct', 'analytic', 'author'],
         namespaced=True),
    Pipe('figure', 'auto_annotate_figure', '.figure.tei.xml', ['text']),
    Pipe('table', 'auto_annotate_table', '.table.tei.xml', ['text']),
]}


def wrap_document(pipe, content, rng=None):
    lang = ' xml:lang="en"' if rng is None or rng.random() < 0.7 else ''
    decl = '<?xml version="1.0" encoding="UTF-8"?>\n' if rng is not None and rng.random() < 0.5 else ''
    if rng is not None and rng.random() < 0.2:
        # the next line directly after the line break
        content = content.replace('<lb/>\n', '<lb/>')
    head = '<teiHeader>\n\t\t<fileDesc xml:id="_%d"/>\n\t</teiHeader>' % (
        rng.randrange(1000) if rng else 0)
    if pipe.name == 'header':
        return (
            '%s<tei>\n\t%s\n\t<text%s>\n\t\t<front>%s</front>\n\t</text>\n</tei>\n'
            % (decl, head, lang, content))
    if pipe.name == 'reference':
        return (
            '%s<TEI xmlns="%s" xmlns:xlink="http://www.w3.org/1999/xlink">\n\t%s\n\t<text%s>\n'
            '\t\t<front/>\n\t\t<body/>\n\t\t<back>\n<listBibl>%s</listBibl>\n'
            '\t\t</back>\n\t</text>\n</TEI>\n'
            % (decl, tei.TEI_NS, head, lang, content))
    if pipe.name == 'affiliation':
        return (
            '%s<tei xmlns="%s">\n\t<teiHeader>\n\t\t<fileDesc>\n\t\t\t<sourceDesc>\n'
            '\t\t\t\t<biblStruct>\n\t\t\t\t\t<analytic>\n\t\t\t\t\t\t<author>%s</author>\n'
            '\t\t\t\t\t</analytic>\n\t\t\t\t</biblStruct>\n\t\t\t</sourceDesc>\n'
            '\t\t</fileDesc>\n\t</teiHeader>\n</tei>\n'
            % (decl, tei.TEI_NS, content))
    return '%s<tei>\n\t%s\n\t<text%s>%s</text>\n</tei>\n' % (decl, head, lang, content)


class RunResult:
    def __init__(self, error, out):
        self.error = error
        self.out = out

    def files(self):
        return sorted(os.path.basename(f) for f in glob.glob(os.path.join(self.out, '*')))


def run(pipe, src, out, xml, extra=(), argv=None):
    """Run one command; SystemExit and exceptions are what a user sees as failure."""
    error = None
    try:
        pipe.main(argv if argv is not None else pipe.argv(src, out, xml, extra))
    except SystemExit as e:
        error = e
    except Exception as e:  # pylint: disable=broad-except
        error = e
    return RunResult(error, out)


def run_documents(ctx, pipe, docs, extra=()):
    """docs: {name: (tei_xml, jats_xml)} -> (RunResult, {name: output path})"""
    src, out, xml = ctx.new_dir('src'), ctx.new_dir('out'), ctx.new_dir('xml')
    for name, (tei_xml, jats_xml) in docs.items():
        write(os.path.join(src, name + pipe.suffix), tei_xml)
        if jats_xml is not None:
            write(os.path.join(xml, name + '.xml'), jats_xml)
    result = run(pipe, src, out, xml, extra)
    ctx.event('documents', len(docs))
    ctx.event('pipeline:' + pipe.name)
    result.src = src
    result.xml = xml
    return result, {name: os.path.join(out, name + pipe.suffix) for name in docs}


def write(path, text):
    data = text if isinstance(text, bytes) else text.encode('utf-8')
    with open(path, 'wb') as f:
        f.write(data)


def read(path):
    with open(path, 'rb') as f:
        return f.read()

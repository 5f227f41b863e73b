"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = 'sciencebeam_trainer_grobid_tools/'
TEI = P + 'structured_document/grobid_training_tei.py'
SMA = P + 'annotation/simple_matching_annotator.py'
UTILS = P + 'auto_annotate_utils.py'
COMMANDS = [P + 'auto_annotate_%s.py' % n for n in (
    'header', 'segmentation', 'fulltext', 'reference', 'reference_segmenter',
    'affiliation_address', 'figure', 'table')]

PROPS = []


def prop(id_, title, statement, over, qtext, why, files, mechanism, observe, technique, level_note,
         level='exploration'):
    assert len(title) <= 80, (id_, len(title))
    PROPS.append({
        'entry': {
            'id': id_, 'title': title, 'statement': statement,
            'quantifier': {'over': over, 'text': qtext},
            'why_tests_cant': why,
            'anchors': {
                'files': files,
                'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
                'observe_at': observe,
                'hook_needed': None,
            },
        },
        'technique': technique, 'level_note': level_note, 'level': level,
    })


prop(
    'C01', 'Annotating a training file never loses, adds or reorders text',
    'The text of the annotated part of every training file written by any of the eight annotation commands is, '
    'apart from white space and line ends, character for character the text the same part of the source file had, '
    'in the same order and with words still separated where they were, whatever the existing markup, the target '
    'document and the options are. Only the option that removes invalid references may drop text, and then only '
    'whole text that is not part of a valid reference.',
    ['inputs', 'configurations'],
    'for every well-formed TEI training file (any nesting and interleaving of known and unknown elements, line breaks, '
    'white space and Unicode text), every JATS target document, and every combination of command options',
    'Tests compare a handful of two- or three-token documents, mostly for one label at a time; the guarantee is over '
    'all interleavings of markup, line breaks, white space and matched values, which only appear combined.',
    [TEI] + COMMANDS + [UTILS, P + 'annotation/remove_untagged_annotator.py'],
    [('tokens keep leading/trailing white space and lines keep their order', TEI + ': _iter_extract_lines_from_element, LineBuilder'),
     ('writer emits every token once under its label', TEI + ': _lines_to_tei, XmlTreeWriter use'),
     ('only untagged reference lines are removed', P + 'annotation/remove_untagged_annotator.py')],
    ['files in the output directory of each command'],
    'conservation monitor over command executions',
    'Randomised executions of all 8 commands on hostile documents; an independent TEI reader compares every character '
    'and word gap of output and input. Trusts lxml parsing. Multiple containers and comments inside the container are outside the workload.')

prop(
    'C02', 'Everything outside the annotated text, and every line break, is kept',
    'In every file written by an annotation command, all elements, attributes and texts outside the annotated part '
    '(header, sibling sections, attributes of the enclosing elements) are those of the source file. Inside the annotated '
    'part there are exactly as many line breaks as in the source, each at the same position in the text and in the '
    'namespace of the document.',
    ['inputs', 'configurations'],
    'for every training file with arbitrary surrounding elements, attributes, namespaces and line break positions, and all options',
    'Tests look at single expressions of the output; they do not compare the rest of the document, nor count line breaks, '
    'and most of them use documents without a namespace or header.',
    [TEI] + COMMANDS,
    [('container is replaced in place', TEI + ': GrobidTrainingTeiStructuredDocument'),
     ('line break element per line', TEI + ': _lines_to_tei')],
    ['files in the output directory of each command'],
    'conservation monitor (outside tree and line-break positions)',
    'Randomised executions of all 8 commands; canonical comparison of everything but the container, and of the line-break offsets. '
    'Comments and processing instructions outside the root element are outside the claim.')

prop(
    'C03', 'Output uses only the label vocabulary of its model, in its namespace',
    'Every element inside the annotated part of an output file is one of the labels of that command\'s GROBID model (or an '
    'element the source already had there and that is kept), in the namespace of the document; internal field names never '
    'appear as element names. No label element without text is added, and text that belongs to no field has '
    'the default label of the model rather than being left bare.',
    ['inputs', 'configurations'],
    'for every training file, target document, field selection and option combination of all eight commands',
    'Tests assert that an expected label is present; the absence of all others, for every option combination, is never asserted.',
    [TEI] + COMMANDS,
    [('field to TEI path mapping', 'TAG_TO_TEI_PATH_MAPPING / TAG_TO_*_PATH_MAPPING in each command'),
     ('path writer', TEI + ': _lines_to_tei, _get_tag_required_path')],
    ['files in the output directory of each command'],
    'vocabulary monitor over every written element',
    'Randomised executions of all 8 commands over documents and options; every element of every output is checked against the '
    'published label set of its model.')

prop(
    'C04', 'Text only gets a label whose field has that text as its value',
    'In the output of every annotation command, text receives the label of a field only if it is (approximately) the text of a '
    'value of that field in the target document, apart from the documented extensions (the line a value is on, '
    'text between parts of one entry, segmentation regions). Text that corresponds to no value keeps the default label, and values '
    'that are not in the document label nothing.',
    ['inputs', 'configurations'],
    'for every document whose values occur once each, with unrelated text before, between and after them, absent values, '
    'typographic differences and values wrapped over lines, for all eight commands',
    'Tests use documents with one or two values of a few tokens and almost no unrelated text, so a label that spreads '
    'to or lands on the wrong text has nothing to land on.',
    [SMA, P + 'annotation/matching_utils.py', P + 'utils/fuzzy.py', P + 'annotation/merge_group_tags_annotator.py', TEI] + COMMANDS,
    [('fuzzy threshold', P + 'utils/fuzzy.py: fuzzy_search_chunks'),
     ('token range of a match', P + 'annotation/matching_utils.py: SequencesText'),
     ('extension to whole line', SMA + ': get_extended_line_token_tags')],
    ['files in the output directory of each command'],
    'label oracle over generated ground truth',
    'Documents whose correct label is known for each character by construction; exploration of document shapes, absent values, typography and letter noise.')

prop(
    'C05', 'Every target value found in the text is labelled completely, one entry each',
    'Whenever a value of the target document occurs in the training file (verbatim, re-wrapped over lines, with different case or '
    'dashes, or with a few wrong letters), all of its text gets the label of its field, however long the document is and wherever the '
    'value stands in reading order; a value of which words are missing is labelled if the share of its letters that occurs is above --matcher-score-threshold, and not if it is below. Each reference, affiliation, figure, table, paragraph or list item becomes exactly one element of '
    'its own: entries are neither merged with each other nor split.',
    ['inputs', 'configurations'],
    'for every document containing its target values in reading order, with any number of entries, parts, line breaks and '
    'amount of unrelated text, for all eight commands, with and without segmentation of existing entries',
    'Tests contain one or two short values; long documents (several matching windows), values in two pieces, neighbouring '
    'entries and combinations of parts are not reached.',
    [SMA, P + 'utils/fuzzy.py', P + 'annotation/matching_utils.py', P + 'core/annotation/target_annotation.py', TEI] + COMMANDS,
    [('windowed fuzzy search', P + 'utils/fuzzy.py: get_str_left_strided_matching_blocks_chunks'),
     ('begin/inside prefixes', SMA + ': update_annotation_for_index_range; ' + TEI + ': _lines_to_tei'),
     ('sub annotations', SMA + ': process_sub_annotations')],
    ['files in the output directory of each command'],
    'label oracle over generated ground truth',
    'As C04, compared in the other direction, plus identity of the element each entry is written to.')

prop(
    'C06', 'Existing labels are kept or replaced exactly as the options say',
    'With default preservation, labels already in the source stay on their text (each in one element of its own), except those of the fields selected with --fields, which are '
    'removed, and except where a newly matched value covers the text, which then gets the new label. With --no-preserve-tags no existing label is kept. '
    'With --always-preserve-fields exactly the existing labels of the listed fields are kept, and no matched value replaces them. '
    'Existing labels of parts inside an affiliation, figure or table are kept only with --preserve-sub-tags and only if not listed in '
    '--no-preserve-sub-fields; newly matched parts replace them, and parts of one entry never affect another entry.',
    ['inputs', 'configurations'],
    'for every document with existing markup, every subset of fields in each preservation option, and all eight commands',
    'Tests check one option and one field at a time on single-token elements; combinations of options with several '
    'existing labels spanning lines and nested parts are not reached.',
    [UTILS, P + 'annotation/annotator.py', P + 'annotation/sub_tag_annotator.py', TEI] + COMMANDS,
    [('preserved tags are read from the source', TEI + ': GrobidTrainingTeiStructuredDocument(preserve_tags, always_preserve_fields)'),
     ('options to sets', UTILS + ': process_annotation_arguments'),
     ('sub tag only mode', P + 'annotation/sub_tag_annotator.py')],
    ['files in the output directory of each command'],
    'differential label oracle over option combinations',
    'Generated documents with existing labels on known text; expected labels computed from the options by an independent model.')

prop(
    'C07', 'Results do not depend on workers, threads, order or neighbours',
    'For the same inputs and options, the set of output files and the bytes of each are the same whether documents are processed '
    'one by one, by any number of worker threads or processes or by the pipeline runner, in any '
    'order, and together with any other documents (including failing ones that are skipped). No document ever gets '
    'text or labels of another one.',
    ['schedules', 'inputs', 'configurations'],
    'for every batch of documents, worker count, threads or processes, submission order and interleaving of the workers',
    'The tests run single documents, with a single worker; interference needs several documents in flight at particular points.',
    [UTILS, P + 'utils/xml.py', P + 'auto_annotate_fulltext.py', P + 'auto_annotate_figure.py', P + 'auto_annotate_table.py'],
    [('one structured document per file', UTILS + ': AbstractAnnotatePipelineFactory.auto_annotate'),
     ('executor per run', UTILS + ': run_local_pipeline / beam pipeline')],
    ['files in the output directory, byte by byte'],
    'schedule-perturbing differential monitor (injected delays, switch interval, worker counts)',
    'Each batch is compared with one-at-a-time runs; delays are injected at function boundaries of the code under test. Interleavings are sampled, not enumerated.')

prop(
    'C08', 'A failing document fails loudly, alone, and never leaves a wrong output',
    'Without error skipping, a document that cannot be processed (missing or malformed target document, source that is not a '
    'training file, output that cannot be written) makes the command end with an error. With error skipping, the command succeeds and every other document gets exactly the output it would '
    'have had without the failing ones, which get no output; outputs of failed documents are never '
    'left behind as complete results.',
    ['inputs', 'fault_sequences', 'configurations'],
    'for every batch in which any subset of documents fails for any cause (missing, empty, cut off or malformed target, source without XML or without the annotated part, unwritable output), '
    'any position of the failures, any worker count',
    'Tests use one document and no failures.',
    [UTILS] + COMMANDS,
    [('skip errors', UTILS + ': process_document_safe / run'),],
    ['exit status of the command', 'output directory'],
    'fault injection with batch-differential monitor',
    'Faults are injected in generated batches; outputs compared with fault-free runs of the surviving documents.')

prop(
    'C09', 'Resume and limit process each document exactly once, also after a crash',
    'With resuming enabled, documents whose output exists are not processed again and their output is left untouched, and all others are '
    'processed; repeating an interrupted or killed run with resuming enabled therefore ends with exactly the output files, complete and '
    'identical, that one uninterrupted run writes. With a limit of n, the run considers n documents (all if there are fewer) and processes those of them that '
    'have no output yet or, without resuming, all of them; a single source path processes exactly the given file.',
    ['crash_points', 'histories', 'configurations', 'fault_sequences'],
    'for every sequence of runs with limits, resume, kills at any point of an output write, failing writes, and outputs removed in between',
    'Tests check one resume with an existing output; kill points inside writing and sequences of runs are not reached.',
    [UTILS, TEI],
    [('list of pending files', UTILS + ': get_file_list_... --resume/--limit'),
     ('output written under its final name only when complete', TEI + ': save_grobid_training_tei_structured_document')],
    ['output directory after each run', 'file modification times and inode'],
    'crash and write-fault injection with history monitor',
    'Kill points are placed at every file-system call of the output stage of a document; histories are sampled.',
    level='fault_enumeration')

prop(
    'C10', 'The quality gate routes each document by whether its values were found',
    'With required fields, or with an acceptance level for matched fields, a document is written to the output directory if and only '
    'if every gated field that has a value in the target document reaches the required '
    'similarity in the annotated result and, for required fields, is present in the target document. '
    'Every other document is written to the directory for failed documents when one is given and nowhere otherwise; it is never in both places nor lost without '
    'error.',
    ['inputs', 'configurations'],
    'for every document in which any subset of gated fields is found, partially found, absent from the text, or absent from the target, and any option combination',
    'Tests check one document with one field each way.',
    [P + 'annotation/checks.py', UTILS, P + 'auto_annotate_segmentation.py'],
    [('checks', P + 'annotation/checks.py: StructuredDocumentChecks'),
     ('routing', UTILS + ': failed output path')],
    ['output and failed-output directories'],
    'routing oracle over generated ground truth',
    'Documents with known degree of match, well away from the thresholds; routing compared with an independent model.')

prop(
    'C11', 'Parts of references are delimited and typed as documented',
    'Inside an annotated reference, authors and editors form one group each including the separators and a closing full stop, first and last page form one range, '
    'and identifiers (DOI, PMID, PMCID, PII, arXiv, web links) get their own type with exactly the identifier, or identifier plus '
    'its prefix when requested. Et al., ampersands and conjunctions between names stay inside the group; text between different kinds of parts never becomes part of either.',
    ['inputs', 'configurations'],
    'for every combination and order of reference parts, separators and punctuation, identifiers and options',
    'Tests cover each post-processing rule with one token sequence; combinations of neighbouring groups and punctuation are not reached.',
    [P + 'annotation/reference_annotator.py', P + 'auto_annotate_reference.py', P + 'annotation/merge_group_tags_annotator.py'],
    [('name suffix and et al.', P + 'annotation/reference_annotator.py'),
     ('group merge', P + 'annotation/merge_group_tags_annotator.py')],
    ['files in the output directory of the reference command'],
    'label oracle over generated references',
    'References generated from a grammar with known part boundaries.')

prop(
    'C12', 'Line numbers are recognised as line numbers, and only those',
    'With the line number option, numbers at the start of lines that count up from the top of the document to its end, each '
    'at most the configured gap away from the one before, are labelled as line numbers if there are as many of them, and as '
    'large a share of the lines, as configured. They are ignored when values are matched: the rest of the document gets the labels it gets '
    'without numbers, also where a value runs over several numbered lines. Nothing else is labelled as line number: not numbers inside lines, repeated '
    'numbers, nor single numbers far from the sequence. Documents without enough line numbers get the result they get without the option. '
    '(In the segmentation model a line number belongs to the region of its line.)',
    ['inputs', 'configurations'],
    'for every document with any share of numbered lines, start, step and gaps in the numbering, numbers in text, and every setting of the line number options',
    'Tests use three to five lines with one token each.',
    [P + 'annotation/line_number_annotator.py', UTILS],
    [('candidate selection', P + 'annotation/line_number_annotator.py'),
     ('options', UTILS + ': add_annotation_pipeline_arguments')],
    ['files in the output directory of header, segmentation and reference segmenter'],
    'label oracle over generated line numbering',
    'Generated numbered documents with known line numbers, well away from the ratio thresholds.')

prop(
    'C13', 'Segmentation assigns every line to the right region',
    'The segmentation command puts each line of the document into exactly one region: the one of the value of the target '
    'document on that line (front, body, acknowledgment, references, annex, as assigned by the segmentation '
    'configuration), or, for lines without value: page number if they have that label already or are numbers that continue the numbering before a '
    'labelled one; running head if the same line of two or more words occurs repeatedly, from early in the document on (limit configurable); the front, '
    'references or annex if lines of the same region come before and after it, or annex at the end; otherwise '
    'the label it had, or body. Front values that start later than the configured line are not front. A region never takes lines that belong to another one, and page '
    'numbers and running heads never interrupt a region.',
    ['inputs', 'configurations'],
    'for every document with any subset of regions, unknown lines between them, running heads, page numbers, existing labels and segmentation settings',
    'Tests use one to four lines for one rule at a time; the rules interact in documents with several regions.',
    [P + 'annotation/segmentation_annotator.py', P + 'annotation/expand_to_untagged_lines_annotator.py',
     P + 'auto_annotate_segmentation.py', 'config/segmentation.conf'],
    [('line majority to region', P + 'annotation/segmentation_annotator.py'),
     ('surrounded lines', P + 'annotation/expand_to_untagged_lines_annotator.py')],
    ['files in the output directory of the segmentation command'],
    'label oracle over generated documents',
    'Generated multi-region documents with known region of each line.')

prop(
    'C14', 'Fixing JATS never loses, adds or reorders text',
    'Fixing the references of a JATS document changes only the markup: the text of the whole document, read in document order, '
    'with its comments and processing instructions, is the same before and after, character by character (apart from the record of the run that the command adds), '
    'for every document with or without errors to fix. Repairs move element boundaries but never drop, duplicate or reorder text, and no '
    'markup that is allowed there makes the command fail.',
    ['inputs'],
    'for every JATS document, with references of any structure, identifiers in any form and position, comments, nested elements and mixed content',
    'Tests check the content of the fixed element for one broken input each; the text around it and nested content is not compared.',
    [P + 'fix_jats_xml.py'],
    [('element rewriting', P + 'fix_jats_xml.py: change_annotation_to_matching_text, replace_element_with_text'),
     ('new annotations', P + 'fix_jats_xml.py: add_annotation_to_element_text_if_matching, fix_ext_link')],
    ['output files of the command'],
    'conservation monitor over command executions',
    'Randomised JATS documents with generated reference defects; independent comparison of the text stream.')

prop(
    'C15', 'Fixed JATS identifiers are exact, and everything else stays as it is',
    'After fixing, the DOI, PMID, PMCID, PII, WOS number and web links of a reference are marked up with their own element of the '
    'right type containing exactly the identifier (a DOI written as URL becomes one link with the whole URL; several URLs in one link become one link each), '
    'without prefixes, labels, quotes, punctuation or neighbouring text, whether they were marked up correctly, too widely, with the wrong type or '
    'letter case, or (in mixed citations) not at all. Text is marked up as DOI, PMID, PMCID or PII only where the reference has none marked up. An element that contains no such identifier is removed, its text stays. Article titles do not contain the quotes around them, a trailing comma or a '
    'PMCID. References that are already correct, and everything outside the references, keep all their elements, attributes and text. The record added to '
    'the document counts and names exactly the references that were changed.',
    ['inputs'],
    'for every reference with at most one identifier of each kind in any combination, order, markup and common notation (an identifier that is not marked up ends with its '
    'text, or is followed by a full stop, semicolon, bracket or one of the known labels)',
    'Tests check one identifier in one notation each, and not the markup around it.',
    [P + 'fix_jats_xml.py'],
    [('identifier fixes', P + 'fix_jats_xml.py: fix_reference'),
     ('record', P + 'fix_jats_xml.py: get_fix_xml_meta_data_dict')],
    ['output files of the command'],
    'expected-document oracle over generated references',
    'Source and expected document are generated together and compared element by element.')

prop(
    'C16', 'Fixing JATS keeps the sources, mirrors the files and is idempotent',
    'The JATS fixing command writes exactly one output per selected input (single file, pattern, or list; the first n with a limit), under the same relative path, with the same compression, '
    'encoding and document type, never changes its '
    'inputs (also when the output directory is the source directory), and gives the same result for any worker count, threads or processes, and whatever other files are processed with it. Fixing an already fixed document changes '
    'no reference, and says so in its record. A document that cannot be read makes the command fail, gets no output and does not affect the outputs of the others.',
    ['inputs', 'histories', 'schedules', 'configurations'],
    'for every directory tree of inputs, selection, worker count, interleaving, and repeated run',
    'Tests run the command on one file.',
    [P + 'fix_jats_xml.py', P + 'utils/io.py', P + 'utils/xml.py'],
    [('file mapping', P + 'fix_jats_xml.py: FixJatsProcessor'),
     ('reading', P + 'utils/io.py: auto_download_input_file')],
    ['input and output directory trees'],
    'differential monitor over directory trees, repeated runs and injected delays',
    'Generated trees; byte comparison of inputs before and after, outputs across runs.')

prop(
    'C17', 'Approximate search finds what is there and nothing else',
    'Searching a value in a text returns, for every occurrence that is verbatim or below the allowed difference, a range that covers that occurrence and nothing but it; '
    'ranges always lie inside the text, not before the position the search starts from, and texts without a sufficiently similar part give no result. Values short enough for exact matching only match whole words; '
    'the result does not depend on the amount or position of unrelated text around.',
    ['inputs', 'configurations'],
    'for every text length (below and above the internal window), position of the occurrence, value length, threshold, number of pieces and start position',
    'Tests use texts of a few words, far below the window in which the search works.',
    [P + 'utils/fuzzy.py', P + 'core/annotation/fuzzy_match.py'],
    [('windowed search', P + 'utils/fuzzy.py: get_str_auto_left_strided_matching_blocks_chunks'),
     ('word mode', P + 'utils/fuzzy.py: WordSequenceMatcher')],
    ['return values of the search functions'],
    'return-value monitor with independent reference search',
    'Generated texts and values with known occurrences, lengths up to several windows.')

prop(
    'C18', 'Annotating again changes nothing, nor does annotating with nothing to add',
    'Running an annotation command on its own output with the same target document and options gives the same labels for all text, in the same elements: '
    'neighbouring entries are neither merged nor split by writing and reading them again. When the target document has no values, '
    'existing labels come out unchanged, in the same elements (header and segmentation by default; affiliation, figure and table when sub tags are preserved).',
    ['histories', 'inputs', 'configurations'],
    'for every document and target, for all eight commands, and repeated runs',
    'No test runs a command on its own output.',
    [TEI, UTILS] + COMMANDS,
    [('preserved tags', TEI)],
    ['files in the output directory of the first and second run'],
    'history monitor (run n against run n+1)',
    'Generated documents with any existing labels, two to four consecutive runs, comparison per character and element.')

prop(
    'C19', 'Malformed XML sources are repaired without losing text',
    'Fulltext training files that are not well-formed (end tags that are missing, exchanged or have a wrong name, a cut off end of file, unescaped & and <), figure training files with '
    'stray content end tags, and JATS files (in the fixing command) with leading white space or undeclared dagger entities give the same result as the well-formed file: all text '
    'in order, the same labels for all text that the defect leaves unambiguous, the same rest of the file. Well-formed files are never altered by the repair.',
    ['inputs'],
    'for every well-formed document and every defect of these kinds at any position',
    'Tests use one defect in a one-line document of lower case elements.',
    [P + 'utils/xml.py', P + 'auto_annotate_fulltext.py', P + 'auto_annotate_figure.py', P + 'fix_jats_xml.py'],
    [('repair', P + 'utils/xml.py: FixingHtmlParser, auto_download_and_fix_input_file'), ('stray content end tags', P + 'auto_annotate_figure.py: fix_source_file_to')],
    ['output files', 'exit status'],
    'fault injection into sources with differential monitor (same document without the defect)',
    'Defects are injected at generated positions of well-formed documents.')

prop(
    'C20', 'Downloading source files yields exactly the listed files, complete',
    'Downloading the files of a document list and a target list puts a complete local copy of every listed pair of which both files exist (and of no other pair) under the names that '
    'output paths and filename patterns ask for, document and target of a pair under names that belong together, each with the content of its '
    'source (compressed or decompressed as the names say), and leaves the sources and all other files alone. Relative names are relative to the base path, by default the directory of the list. '
    'Two different files are never written to the same name, nor over a source; a copy that fails, and lists without any existing pair, are reported as an error. No thread is left running, whether copying succeeds or fails.',
    ['inputs', 'fault_sequences', 'configurations', 'schedules'],
    'for every file list (plain, csv, tsv; absolute or relative), naming pattern, limit, number of threads and set of missing or unreadable files',
    'Tests download one pair without faults, and check that the copy is not empty.',
    [P + 'download_source_files.py'],
    [('download', P + 'download_source_files.py: run'), ('names', P + 'download_source_files.py: get_relative_output_filename')],
    ['download directories', 'exit status'],
    'file-tree monitor with injected faults and delays',
    'Generated trees, lists and patterns; the expected tree is computed from the lists independently.')

prop(
    'C21', 'Target values are exactly the fields of the target document, in order',
    'The values looked for are those the mapping configuration selects from the target document: one for each element a field selects, by priority and then in document order, '
    'with its full text (words of different elements separated, ignored elements left out), or with the list of its parts, longest first, if the mapping asks for children and there is no text between them; '
    'children, concatenations, ranges (single values where they are not ascending numbers), sub fields, flags and regular expressions are applied as configured. Nothing is omitted, duplicated or taken from '
    'elements that are not selected, and comments, processing instructions, entities, CDATA and the kind of white space in the target document make no difference. A document with a root the mapping does not know is an error that names it.',
    ['inputs', 'configurations'],
    'for every JATS document (nested formatting, repeated and missing elements, white space) and mapping configuration',
    'Tests use minimal documents for one mapping feature each.',
    [P + 'core/annotation/target_annotation.py', P + 'annotation/target_annotation.py', 'config/xml-mapping.conf'],
    [('extraction', P + 'core/annotation/target_annotation.py: xml_root_to_target_annotations')],
    ['return value of the extraction', 'labels in command output'],
    'differential monitor against an independent extraction',
    'Generated JATS documents and mappings, compared with an independent model of the documented mapping language.')

prop(
    'C22', 'Only selected fields are annotated, and unselected ones change nothing',
    'Restricting a command to a set of fields (or sub fields) labels exactly the values of these fields; values of other fields get no label, and the text of selected fields is '
    'labelled as it would be without the restriction. Selected sub fields keep their settings. Overrides of the mapping on the command line apply to that run only and to that setting only.',
    ['configurations', 'inputs'],
    'for every subset of fields and sub fields and every mapping override, for all commands that have the options',
    'Tests check one field with one document.',
    [UTILS, P + 'core/annotation/target_annotation.py'] + COMMANDS,
    [('field filter', UTILS + ': get_xml_mapping_and_fields')],
    ['files in the output directory of each command'],
    'differential label oracle over field subsets',
    'Generated documents and random subsets; compared with ground truth restricted to the subset.')

prop(
    'C23', 'Labels spread over lines and to neighbouring lines only as documented',
    'In header, reference segmenter and fulltext output, the unlabelled start or end of a line gets the label of the value next to it on that line if and only if the value has more '
    'words and punctuation marks on that line than the unlabelled text, unless the field is configured not to extend (title) or --no-extend-to-line is given. Unlabelled text between two values of '
    'the same field on one line joins them into one element, except for entries that are kept apart (affiliations, references); between values of different fields it stays unlabelled. '
    'In fulltext, unlabelled text between two list items becomes part of the list around them. With --expand-to-previous-untagged-lines (or following), all unlabelled text between '
    'the preceding (or following) label and a figure or table becomes part of that figure or table, in the same element, and nothing else changes; text with an existing label that is kept counts as labelled.',
    ['inputs', 'configurations'],
    'for every arrangement of values and other text on lines and every combination of the spreading options',
    'Tests check the rule on single hand-made lists of tags, not its effect in documents with several values, wrapped values, existing labels and combined options.',
    [P + 'annotation/simple_matching_annotator.py', P + 'annotation/expand_to_untagged_lines_annotator.py',
     P + 'annotation/merge_group_tags_annotator.py', P + 'auto_annotate_fulltext.py'],
    [('line rule', P + 'annotation/simple_matching_annotator.py: get_extended_line_token_tags'),
     ('figures and tables', P + 'annotation/expand_to_untagged_lines_annotator.py'),
     ('lists', P + 'annotation/merge_group_tags_annotator.py')],
    ['files in the output directory of the header, fulltext and reference segmenter commands'],
    'reference model of the spreading rules, word by word',
    'Generated documents with values anywhere in lines; label and element of every word compared with a model of the rule.')

prop(
    'C24', 'The order-independent matcher labels values wherever they are, and nothing else',
    'With --matcher complex, the header command gives every word of a title, author name, affiliation part, abstract or keyword of the target that occurs in the document the label '
    'of its field, in whatever order the values occur in the document or the target, over however many lines they run, and also if they are written in capitals or with other dashes. '
    'Lines that have nothing to do with a target value keep the default label, also the line just after a value and if target values are missing from the document. '
    '--debug-match does not change this.',
    ['inputs', 'configurations'],
    'for every order of the values in the document and in the target, every line wrapping and every set of values that occur or do not occur',
    'Tests check the matcher on one or two values of a few words given as token lists, not whole documents with many values in other orders and wrapped lines.',
    [P + 'core/annotation/matching_annotator.py', P + 'core/annotation/fuzzy_match.py', UTILS],
    [('matcher', P + 'core/annotation/matching_annotator.py: TargetAnnotationMatchFinder, MatchingAnnotator'),
     ('option', UTILS + ': get_default_annotators')],
    ['files in the output directory of the header command'],
    'ground truth of generated documents, letter by letter',
    'Generated header documents and targets in independent random orders; labels of values and of unrelated lines compared with ground truth.')

prop(
    'C25', 'File names, directories and compression do not affect annotation',
    'An annotation command writes exactly one file per source file, under the name of the source, to the output directory, or to the failed directory if the document does not meet '
    'the required fields; its content does not depend on the name of the file, on whether source and target are compressed (.gz; the output then is, too), or on how directories are '
    'given (relative, over a link, with a slash at the end, not existing yet). Source and target files are left as they are, and no temporary file is left behind.',
    ['inputs', 'configurations'],
    'for every file name the file system allows and the listing pattern matches, every mix of compressed and uncompressed files, every spelling of the directories, one or several '
    'workers and processes, one file or a directory',
    'Tests use one plain name per command, in an existing absolute directory, uncompressed.',
    [UTILS, P + 'utils/xml.py', P + 'utils/io.py', P + 'auto_annotate_figure.py', P + 'auto_annotate_table.py', P + 'auto_annotate_fulltext.py', P + 'annotation/annotator.py'],
    [('output and target names', UTILS + ': get_tei_xml_output_file_for_source_file, get_target_xml_for_source_file'),
     ('repaired source copies', P + 'utils/xml.py: get_fixed_source_url'),
     ('failed documents', P + 'annotation/annotator.py: annotate_structured_document')],
    ['files in output, failed, source, target and temporary directory'],
    'differential and conservation monitor on files',
    'The same documents under plain and under hostile names, compressed or not; bytes of the outputs compared; set of files in every directory, inputs and temporary directory observed.')

prop(
    'C26', 'Every matching setting of the mapping has its effect, on its field alone',
    'The settings of a field in the XML mapping, or in overrides of it, have their effect on that field and no other: a match-prefix-regex takes the text it matches right before a '
    'value into the label (and nothing if it does not match); any of the alternative-spellings is found in place of the value; two values next to each other become one element with '
    'merge and two without it; with extend-to-line (the default) a value that is the larger part of a line takes the whole line, without it the value only; max_chunks allows a value to be found in that many pieces. '
    'Without a setting its documented default applies; an override replaces the setting of the file.',
    ['inputs', 'configurations'],
    'for every combination of these settings over any number of fields, given in the mapping file (quoted or not) or as overrides, and every document',
    'Tests check the parsing of single settings and the annotator with a configuration object each; none checks a mapping file with several fields of different settings end to end.',
    [SMA, UTILS, P + 'utils/string.py', P + 'core/annotation/target_annotation.py'],
    [('settings', SMA + ': get_simple_tag_config_map, parse_regex, parse_alternative_spellings'),
     ('overrides', UTILS + ': get_xml_mapping_with_overrides'),
     ('use', SMA + ': SimpleMatchingAnnotator')],
    ['label of every character', 'number of elements of every field'],
    'label-by-label monitor against a reference interpretation of the settings',
    'Documents whose correct labels follow from random settings of own fields; label of every letter and number of elements compared.')

NOT_CLAIMED = {
}


def claimed():
    return [p for p in PROPS if os.path.exists(
        os.path.join(HERE, 'vf', 'checks', p['entry']['id'].lower() + '.py'))]


def main():
    ids = [p['entry']['id'] for p in claimed()]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        for p in PROPS:
            f.write(json.dumps(p['entry'], ensure_ascii=False) + '\n')
    manifest = {
        'version': 1,
        'setup_cmd': 'true',
        'checks': [{
            'property': p['entry']['id'],
            'quick_cmd': '/opt/venv/bin/python run_check.py %s --tier quick' % p['entry']['id'],
            'thorough_cmd': '/opt/venv/bin/python run_check.py %s --tier thorough' % p['entry']['id'],
            'technique': 'runtime monitoring: ' + p['technique'],
            'level': p['level'],
            'level_note': p['level_note'],
        } for p in claimed()],
        'not_applicable': [{
            'property': p['entry']['id'],
            'reason': NOT_CLAIMED.get(p['entry']['id'], 'check not built yet'),
        } for p in PROPS if p['entry']['id'] not in ids],
        'notes': 'No hooks in /repo are needed: the monitors drive the public commands of the working tree in /repo in-process.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump(manifest, f, indent=1, ensure_ascii=False)
        f.write('\n')


if __name__ == '__main__':
    main()

"""C04 soundness of labels"""
from vf import judge, work

RULE = (
    'documents of all 8 commands whose correct labels are known by construction (every word '
    'occurs once), with unrelated text, target values that are not in the document, '
    'typographic and letter differences; monitor compares the label of every character; '
    'non-trivial: document has both unlabelled text or several fields, and labelled text'
)
PLAN = {'quick': 1400, 'thorough': 40000}
REQUIRED_EVENTS = {'labels-compared': 100000, 'variant:absent-targets': 100}


def run_case(ctx):
    case = judge.make_case(ctx.rng, work.NAMES[ctx.index % len(work.NAMES)])
    flat, chars, paths, owner = judge.run(ctx, case)
    if flat is None:
        return
    ctx.event('labels-compared', len(chars))
    wrong = [
        i for i in range(len(chars))
        # a label, or a part of it, that the text must not have
        if flat.paths[i] != paths[i][:len(flat.paths[i])] and not case.doc.blocks[owner[i]].unjudged
    ]
    ctx.require(
        not wrong, 'text-has-label-of-other-field', pipe=case.pipe.name, opts=case.opts, variants=case.variants,
        text=flat.slice_text(max(0, wrong[0] - 20), wrong[0] + 40) if wrong else '',
        expected=paths[wrong[0]] if wrong else '', actual=flat.paths[wrong[0]] if wrong else '',
        jats=case.jats, output=getattr(case, 'output', ''))
    if len(set(paths)) > 1:
        ctx.distinct(case.pipe.name, chars)

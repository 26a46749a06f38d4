#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import PROPS
HERE = os.path.dirname(os.path.abspath(__file__))
ORDER = sorted(PROPS)
HARD = ('C11', 'C12', 'C49', 'C53')
UNCLAIMED = [
    dict(id='C90', title='A shown image appears pixel for pixel on the screen',
         statement='Showing an image of one, three or four channels opens a window whose contents are the pixels of the image, and returns when the window is closed.',
         quantifier=dict(over=['inputs', 'schedules'], text='every image size and channel count, every sequence of window events'),
         why_tests_cant='The only test opens a window by hand.',
         anchors=dict(files=['modules/highgui/src/smshow.c'], mechanism=[dict(name='smshow', where='modules/highgui/src/smshow.c')]),
         reason='The display code is compiled only with SDL or X11 headers, which are not installed, and needs a screen; without them the operation is empty, so there is no execution to monitor.'),
    dict(id='C91', title='Resizing, wavelet decomposition, line detection and hue conversion work',
         statement='Resizing an image, decomposing it into wavelet coefficients, detecting lines by the Hough transform, thresholding by triangle or mask and converting to other colour spaces give their textbook results.',
         quantifier=dict(over=['inputs'], text='every image'),
         why_tests_cant='No test calls them.',
         anchors=dict(files=['modules/process/src/c_src/hypercvresize.c', 'modules/process/src/c_src/dwt.c', 'modules/algorithm/src/HoughLines.c',
                             'modules/process/src/c_src/colortransform.c', 'modules/process/src/c_src/threshold.c'],
                      mechanism=[dict(name='unfinished functions', where='modules/process/src/c_src/hypercvresize.c')]),
         reason='These functions are unfinished in the repository (bodies end in a todo and produce no result): there is no result to observe.'),
]
with open(HERE + '/properties.jsonl', 'w') as f:
    for pid in ORDER:
        p = PROPS[pid]
        assert p['statement'].count('. ') <= 2, pid
        for x in p['files']:
            assert os.path.exists('/repo/' + x), x
        for m in p['mechanism']:
            assert os.path.exists('/repo/' + m['where']), m
        f.write(json.dumps(dict(
            id=pid, title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['quantifier']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=p['mechanism'],
                         observe_at=p['observe'] or ['the results, outputs and exit status of the public calls'], hook_needed=None)),
            ensure_ascii=True) + '\n')
    for n in UNCLAIMED:
        f.write(json.dumps({k: v for k, v in n.items() if k != 'reason'}) + '\n')
checks = [dict(property=pid, quick_cmd='python3 check.py ' + pid, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + pid,
               evidence_file='evidence/%s.json' % pid, technique=PROPS[pid]['technique'], level='exploration', level_note=PROPS[pid]['note']) for pid in ORDER]
NA = [dict(property=n['id'], reason=n.pop('reason')) for n in UNCLAIMED]
json.dump(dict(version=1, setup_cmd='python3 check.py --selftest', hooks=dict(
    guard='HYPERCV_VERIF', enable='none needed: no hook was added to /repo. The checks observe the unmodified sources through the sanitizers, '
    'through interposed allocation functions (ld --wrap) and at the public interface, all from /verif.', source_commits=[]),
    checks=checks, not_applicable=NA,
    notes='All checks build the working tree of /repo into a temporary directory. See DESIGN.md.'), open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks')

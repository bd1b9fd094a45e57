"""writes known_findings.json from the fix: commits (mapping commit subject -> property)"""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [
 ('most uncertain direction', 'C08'), ('with the window manager', 'C23'), ('reload window shows', 'C26'), ('open reload windows follow', 'C26'),
 ('decode strings', 'C13'), ('short-lived objects', 'C13'), ('debug dump', 'C14'), ('join no longer blocks', 'C15'),
 ('reserved experiment', 'C15'), ('without desired value invariant', 'C07'), ('variance of its own', 'C07'),
 ('targets with parameters which are not evaluated', 'C03'), ('reload parameter tuners', 'C14'),
 ('last_voltages setter', 'C12'), ('current_position setter', 'C12'), ('after a restart or a change', 'C12'),
 ('queued steps early', 'C05'), ('only changes its own gates', 'C05'), ('discard the queued steps', 'C12'),
 ('tuned voltages and evaluation failure', 'C14'), ('all constructor arguments', 'C14'), ('SensingDot1D evaluation', 'C18'),
 ('LeadTransition restores', 'C19'), ('not estimated yet to the History', 'C17'), ('read_files reads files with reserved', 'C25'), ('read_files returns', 'C17'),
 ('subdirectories', 'C17'), ('exactly the requested parameter', 'C17'), ('with a given current position', 'C10'),
 ('starts a new iteration', 'C22'), ('starting point is measured again', 'C22'), ('target changes of the NelderMead', 'C12'), ('store and reload the NelderMead', 'C22'), ('accepts the tuned parameters', 'C22'),
 ('GUI logs', 'C23'), ('closing the GUI', 'C23'), ('linearly dependent positions', 'C10'), ('expensive evaluations', 'C04'), ('when its target changes', 'C12'), ('unfinished finite difference', 'C12'), ('common base point', 'C10'), ('find_lead_transition does not', 'C24'),
  ('several times as one shared object', 'C13'), ('write several objects with reserved', 'C15'), ('options of its own measurement', 'C18'),
  ('estimators with stored measurements', 'C14'), ('fall with the fall time', 'C18'), ('variances on a falling flank', 'C18'),
  ('measured again at unchanged voltages', 'C17'), ('not estimated yet from the History', 'C17'),
  ('does not block the exit', 'C15'),
  ('follows the rising flank', 'C18'),
  ('plots of parameters without', 'C27'), ('plot of a single gradient', 'C27'), ('plot of gradients which', 'C27'), ('real time plot', 'C27'),
 ('lead tunnel times is plotted', 'C28'), ('sensing dot scans are plotted', 'C28'), ('every averaging evaluator can be', 'C28'), ('plotting raw data', 'C28'),
 ('replace their initial fit', 'C28'), ('data of averaged evaluators', 'C28'), ('does not draw in', 'C28'), ('titled with the position', 'C28'), ('did not measure yet', 'C28'),
 ('simulated experiment', 'C29'), ('simulated detuning', 'C29'),
 ('maximum covariance per gate', 'C08'), ('step widths per gate', 'C08'),
 ('do not modify the position', 'C12'), ('inaccurately set base', 'C21'), ('repeated measurement', 'C21'),
]
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h|%s'], text=True).splitlines()
fixed = []
for l in log:
    h, s = l.split('|', 1)
    if not s.startswith('fix:'):
        continue
    ps = [p for k, p in PROP if k in s] or ['?']
    fixed.append('fixed: property=%s %s %s' % (ps[0], h, s[4:].strip()))
old = {}
path = os.path.join(HERE, 'known_findings.json')
if os.path.exists(path):
    old = json.load(open(path))
json.dump(dict(findings=old.get('findings', []), fixed=fixed), open(path, 'w'), indent=1)
print('\n'.join(fixed))

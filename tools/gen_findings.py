"""Writes the fixed entries of known_findings.json from the fix: commits of /repo (run by hand; no check uses it)."""
import json, os, subprocess
PROPS = {  # words of the subject -> property
    'when probed without an input': 'C22',  # words of the subject -> property
    'refine queries leave': 'C06', 'refuted in the same round': 'C08', 'respects max_rounds': 'C08',
    'steps of learning': 'C20', 'max_learning_rounds counts': 'C08', 'empty sequence are reported by GSM': 'C07',
    'contradicting outputs of the empty word': 'C07', 'dictionary cache checks': 'C07', 'counts its tests on single-state': 'C04',
    'no longer share one error state': 'C12', 'printed and swallowed': 'C18', 'Moore observation tree': 'C07',
    'numbered per tree': 'C12', 'reorders its states': 'C13', 'transition coverage oracle no longer prints': 'C09',
    'characterization set has a reproducible': 'C11', "caller's initial set": 'C13', 'unusable references': 'C10',
    'samplers draw from the alphabet': 'C11', 'ignores automaton_type': 'C19', "samples to the caller's data": 'C10',
    "sorts the caller's data": 'C10', "entries from the caller's list": 'C10', 'shuffles the states': 'C03',
    'same-state transitions': 'C11', 'Wp-method tests in': 'C11', 'SMM to MDP conversion': 'C11', 'converted RPNI sequences': 'C11',
    'accepting words of a Sevpa': 'C11', 'abstracted ONFSM L* processes': 'C11',
    'backward linear': 'C19', 'print levels are rejected': 'C19', 'documented options of KV': 'C19', 'ignores shuffle_test_set': 'C19',
    'transformed score function': 'C19',
    'undefined input no longer adds': 'C14',
    'start with the initial state even if': 'C15', 'returns the setup it builds': 'C15', 'can be copied and pickled: setup': 'C15',
    'implement state setups': 'C15',
    'active Alergia pair each input': 'N04', 'reads the initial output like': 'N04', 'identifier of its own': 'C23',
    'sink state of a non-deterministic Moore': 'C23', 'mc_from_mdp accepts': 'C23',
    'Sevpa are loaded under their input': 'C16', 'computes prefixes for the automaton types': 'C16', 'loaded as integers': 'C16',
    'reports a difference seen on': 'C25', 'total state matching of Moore': 'N01', 'start with different initial outputs': 'C07',
    'stochastic L* counts the queries of its rs': 'C20',
    'method arguments that are falsy': 'C05', 'attempts to generate a minimal': 'N08',
    'random stochastic Mealy machines are': 'N09', 'random SEVPAs have': 'N09',
    'symbols containing push or pop': 'C16', 'define every state that a transition leads to': 'C16',
}
f = os.path.join(os.path.dirname(__file__), '..', 'known_findings.json')
d = json.load(open(f))
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True)
out = []
for l in log.splitlines():
    h, s = l.split(' ', 1)
    if s.startswith('fix:'):
        p = [v for k, v in PROPS.items() if k in s]
        assert len(p) == 1, s
        out.append(f'fixed: property={p[0]} {h} repaired so that: {s[5:]}')
d['fixed'] = out
json.dump(d, open(f, 'w'), indent=1)
print(len(out))

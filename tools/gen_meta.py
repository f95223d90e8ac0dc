"""Writes checks/meta.json and MANIFEST.json from one table."""
import json
import os

root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
M = {}
NA = {}


def check(pid, technique, rule, note, level='exploration', **kw):
  M[pid] = dict(rule=rule, technique=technique, level=level, level_note=note, **kw)


PBT = 'property-based testing (Hypothesis): '

check('D01', PBT + 'random prompt batches and cache-dependent logit tables against a sequential reference of the decode layout',
      'the batch mixes prompt lengths, or stops early by EOS or by the step limit, or asks for several decodes',
      'Randomised search with shrinking; models are random tables hashed from the cache history. float32, CPU.')
check('D02', PBT + 'sequential numpy re-decode as oracle for greedy tokens and for the reported log-probabilities',
      'at least one generated token after the prompt in a batch whose models depend on the history',
      'Randomised search; scores compared within float32 rounding.')
check('D03', PBT + 'support and frequency of sampled tokens against an exact cutoff computed in numpy',
      'the cutoff removes some but not all of the vocabulary, or temperature/top-p vary per example',
      'Randomised search; frequencies are tested with a false-alarm bound below 1e-9 per case.')
check('D04', PBT + 'exact sequential beam search in numpy as reference model',
      'a beam is reordered, or finishes by EOS, before the last step',
      'Randomised search; logits are drawn so that near-ties (where float rounding decides) are excluded.')
check('D05', PBT + 'sorting-based cutoff and brute-force monotone predicates as oracle, boundary bit patterns enumerated',
      'the threshold separates at least one kept from one dropped entry, or the predicate flips inside the range',
      'Randomised search over shapes, ties, infinities and bit patterns.')
check('L01', PBT + 'float64 closed form and its derivative as oracle',
      'at least two classes and a non-zero cotangent', 'Randomised search; tolerance scaled to float32.')
check('L02', PBT + 'direct per-token numpy computation as oracle, plus metamorphic masking relations',
      'a batch with both masked and unmasked positions, or more than one packed segment',
      'Randomised search; tolerance scaled to float32.')
check('M01', PBT + 'reduce-whole versus split/merge in any order (metamorphic) and closed-form rates',
      'at least two parts that differ', 'Randomised search.')
check('M02', PBT + 'direct counting oracle over generated batches and microbatch counts',
      'batch has both padding and non-padding, or several segments, or several microbatches', 'Randomised search.')

exec(open(os.path.join(root, 'tools', 'meta_more.py')).read()) if os.path.exists(os.path.join(root, 'tools', 'meta_more.py')) else None

props = [json.loads(l)['id'] for l in open(os.path.join(root, 'properties.jsonl'))]
for p in M:
  assert p in props, p
for p in props:
  if p not in M and p not in NA:
    NA[p] = 'The family applies, but no check for it is finished yet.'
json.dump(M, open(os.path.join(root, 'checks', 'meta.json'), 'w'), indent=1)
json.dump(dict(
    version=1, setup_cmd='bash setup.sh',
    checks=[dict(property=p, quick_cmd=f'bash run.sh {p} --tier quick', thorough_cmd=f'bash run.sh {p} --tier thorough',
                 evidence_file=f'evidence/{p}.json', technique=M[p]['technique'], level=M[p]['level'], level_note=M[p]['level_note'])
            for p in props if p in M],
    not_applicable=[dict(property=p, reason=NA[p]) for p in props if p in NA],
    notes='All checks: run.sh -> lib/runner.py, Hypothesis or enumerated generation, sharded over 8 processes; import the code from /repo at run time.'),
    open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(M), 'claimed', len(NA), 'not')

"""Writes /verif/MANIFEST.json: one entry per property that has a check, the rest not applicable."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa.checks import TABLE
ENGINE = 'whole-program abstract interpretation of the syntax trees (types, heap, effects) driven from every public operation'
TERMS = 'symbolic reading of each operation from its syntax tree into one normal-form term plus an effect list (no execution, no solver)'
TECH = {
    'C01': ENGINE + '; ownership labels on trained objects, any reachable write is a violation',
    'C02': ENGINE + '; ownership labels on caller arguments and class/module/default objects',
    'C03': ENGINE + ' in quiet mode (verbose/debug constant False), any reachable print is a violation',
    'C04': ENGINE + '; constant propagation to the encoding of every reachable open',
    'C05': ENGINE + '; typestate of every opened file over normal and exceptional exits',
    'C06': ENGINE + ' with every option at its default; constant folding of opened paths, existence, packaging and line format',
    'C08': ENGINE + '; one taint tag per option, followed to its computing uses, attributes and callee parameters',
    'C10': ENGINE + '; order-taint of set iteration, random, clock, hash and identity sources to results and written files',
    'C11': TERMS + '; __call__ and the named operation must have the same parameters, defaults and result term',
    'C12': TERMS + '; content, copy depth and sharing of the remembered and working dicts decided on the terms',
    'C13': TERMS + '; updates of the two directions summarised and compared with the keys swapped',
    'C14': TERMS + '; the record format written by save is substituted for the line read by load; packed formats compared path by path',
    'C21': TERMS + '; what is counted and what is yielded compared line by line, limit by limit',
    'C23': TERMS + '; the term-to-column map, the column list and every use of them compared as sequences, orders and sizes',
    'C15': TERMS + '; abstract evaluation over boxes of character codes (mixed-radix linear forms with interval bounds, constant tables)',
    'C16': TERMS + '; character-set analysis of every regular expression (sre syntax tree, all of Unicode) along the chain of text operations',
    'C17': TERMS + '; a span domain (text slices of the eojeol, difference bounds between their ends) proving that the pieces tile it; path invariants of copying and merging loops',
    'C18': TERMS + '; a span domain (text slices of the eojeol, difference bounds between their ends) for candidates, chosen words and what fills the gaps',
    'C22': TERMS + '; every update of a count judged by what its key is of the occurrence, its amount, the loops around it and the conditions on it',
    'C24': TERMS + '; the scores as rational functions, roots and logarithms of the counts compared with their definitions; ranges from the signs of coefficients',
    'C25': TERMS + '; the recurrence (borders, three ways into a place, costs, place returned) and the ratios compared with their definitions',
    'C26': TERMS + '; the tables replaced by one round of the counting loop: condition, filter, what is kept, and that no update hangs on it',
    'C28': TERMS + '; the one-step operation must call each of its two steps once, unconditionally, with the same options',
    'C19': ENGINE + ' for the direction of every comparison with a limit; ' + TERMS + ' for the path of every entry into a returned collection',
    'C20': TERMS + '; facts about every pair in a collection derived from the guards it was added under',
    'C09': ENGINE + '; counts (int) and scores (float) followed through tuples, fields and calls to limits, parameters and results',
    'C07': ENGINE + '; name, attribute, call-signature and definite-type-error resolution on every reachable path',
}
NOTE = ('Over-approximates values and under-approximates nothing it decided: every construct it cannot follow is '
        'listed as undecided in the evidence and is then quiet. Third-party calls (numpy, scipy, sklearn, psutil) are modelled, not analysed.')
NOTES = {}
NA = {}
exec(open(os.path.join(ROOT, 'tools', 'manifest_text.py'), encoding='utf-8').read())
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'), encoding='utf-8')]
cmd = 'python3 -W ignore -m sa %s --tier %s'
m = {'version': 1, 'setup_cmd': 'python3 -W ignore -m compileall -q sa', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in TABLE:
        m['checks'].append({'property': i, 'quick_cmd': cmd % (i, 'quick'), 'thorough_cmd': cmd % (i, 'thorough'),
                            'technique': TECH[i], 'level': 'other', 'level_note': NOTES.get(i, NOTE)})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA[i]})
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(m['checks']), 'checks', len(m['not_applicable']), 'n/a')

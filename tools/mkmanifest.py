#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when checks/<id>.py exists."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = ('Holds for every value of the symbolic inputs within the bounds in the evidence file; the source is translated and executed anew '
        'on every run. Trusts: the translator and array model (their results are compared with the compiled code on solver models), z3, '
        'real arithmetic instead of floating point. ')
TECH = {
    'G01': 'symbolic execution of the conversions; z3 over trigonometric atoms with axioms (nonlinear real arithmetic)',
    'G02': 'symbolic execution of the decoding; z3 over trigonometric atoms with axioms (nonlinear real arithmetic)',
    'I01': 'symbolic execution of the helpers with symbolic tie values; z3 linear real arithmetic over all pixels',
    'I02': 'symbolic execution with every tie of every scan symbolic; z3 decides that no other scan has a weight',
    'I03': 'symbolic execution with symbolic tie values and tie positions; z3 nonlinear real arithmetic',
    'I04': 'symbolic execution with symbolic tie values; z3 linear real arithmetic',
    'I05': 'symbolic execution of lazy and eager interpolation with uninterpreted interpolation functions; z3 decides equality',
    'I06': 'symbolic execution of the naming with dask.tokenize as an injective function; z3 decides that names differ',
    'I07': 'symbolic execution with symbolic polynomial coefficients; z3 linear real arithmetic over all fine positions',
    'G03': 'symbolic execution with symbolic tie positions, decoding recorded; z3 linear real arithmetic over all fine positions',
    'M01': 'symbolic execution of the translated Cython code with symbolic ties; z3 linear real arithmetic over all pixels',
    'M02': 'symbolic execution of the translated Cython code with symbolic zenith angles; z3 nonlinear real arithmetic with trigonometric axioms',
    'M03': 'symbolic execution with definedness conditions as z3 queries (nonlinear real arithmetic with trigonometric axioms)',
    'M04': 'symbolic execution of the translated Cython code with symbolic ties; z3 linear real arithmetic over all pixels',
    'M05': 'symbolic execution with symbolic chunk sizes; z3 integer arithmetic',
    'M06': 'symbolic execution with symbolic array shapes, every access an assertion; z3 integer arithmetic',
    'L01': 'symbolic execution of the translated Cython code with symbolic points, values and grids; z3 nonlinear real arithmetic',
    'L02': 'symbolic execution with symbolic points and grid orders, every access an assertion; z3 mixed integer/real arithmetic',
    'L03': 'symbolic execution with symbolic grid boundaries and values; z3 nonlinear real arithmetic',
    'V01': 'symbolic execution with symbolic tie values; z3 linear real arithmetic over all pixels',
    'V02': 'symbolic execution with symbolic geolocation and thresholds; z3 nonlinear real arithmetic with trigonometric axioms',
    'S01': 'symbolic execution with symbolic scan counts and scan lengths; z3 integer and linear real arithmetic',
    'S02': 'symbolic execution comparing every input element before and after; z3 decides equality for all values',
    'B01': 'symbolic execution with symbolic tie values; z3 linear real arithmetic over all pixels',
}
NA = {
    'F01': 'Solvers decide the real-number meaning of this code; its trigonometric library functions have no floating-point semantics an SMT '
           'solver could use, and bounding the rounding of thousands of nested operations is out of reach. All checks state that floats are '
           'treated as reals.',
    'F02': 'Agreement with real MODIS products is a statement about measured data, not about the code; there is no formula to compare with.',
}
NOTE = {}
exec(open(os.path.join(HERE, 'tools', 'notes.py')).read() if os.path.exists(os.path.join(HERE, 'tools', 'notes.py')) else '')

ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': '%s run.py %s quick' % (PY, i), 'thorough_cmd': '%s run.py %s thorough' % (PY, i),
                       'evidence_file': 'evidence/%s.json' % i, 'technique': TECH[i], 'level': 'model_checking',
                       'level_note': BASE + NOTE.get(i, '')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'Its check is not built yet.')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the checks load its source directly. run.py ID [quick|thorough] runs a check, run.py ID --replay FILE '
              'replays a counterexample on a fresh build of the working tree.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)

#!/usr/bin/env python3
"""Writes known_findings.json: the recorded genuine defects (status known) and the repaired ones (status fixed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = []
for proto, key, tags, vals in (
    ('GIPA', 'gipa', ('pairing', 'multiexp', 'scalar'), ('left commitment', 'right commitment', 'inner product commitment')),
    ('TIPA', 'tipa', ('pairing', 'multiexp', 'scalar'), ('left commitment', 'right commitment', 'inner product commitment')),
    ('GIPA-SSM', 'gipa-ssm', ('multiexp', 'scalar'), ('left commitment', 'inner product commitment', 'scalar')),
    ('TIPA-SSM', 'tipa-ssm', ('multiexp', 'scalar'), ('left commitment', 'inner product commitment', 'scalar'))):
    for t in tags:
        for i, v in enumerate(vals):
            K.append({'id': 'C07-%s-%s-%d' % (key, t, i), 'property': 'C07', 'status': 'known', 'scenario': 'C07/%s/%s/%d' % (key, t, i),
                      'label': '%s/%s: first challenge determines the %s' % (proto, t, v),
                      'what': '%s (%s): the %s of the statement is not hashed into any challenge (weak Fiat-Shamir)' % (proto, t, v)})
for i, v in enumerate(('commitment', 'first coordinate', 'row evaluation commitment')):
    K.append({'id': 'C07-pc-%d' % i, 'property': 'C07', 'status': 'known', 'scenario': 'C07/pc/%d' % i, 'label': 'PC: first challenge determines the ' + v,
              'what': 'SRS-based polynomial commitment: the %s is not hashed into any challenge (weak Fiat-Shamir)' % v})
for i, (c, v) in enumerate((('first', 'commitment'), ('first', 'first coordinate'), ('first', 'row evaluation commitment'),
                            ('first-tier', 'row evaluation commitment'), ('first-tier', 'second coordinate'), ('first-tier', 'value'))):
    K.append({'id': 'C07-transparent-pc-%d' % i, 'property': 'C07', 'status': 'known', 'scenario': 'C07/transparent-pc/%d' % i, 'label': 'transparent PC: %s challenge determines the %s' % (c, v),
              'what': 'transparent polynomial commitment: the %s is not hashed into the %s challenge (weak Fiat-Shamir)' % (v, c)})
K.append({'id': 'C07-groth16-3', 'property': 'C07', 'status': 'known', 'scenario': 'C07/groth16/3', 'label': 'Groth16 aggregation: combining challenge determines the public inputs',
          'what': 'Groth16 aggregation: the public inputs (and the verifying key) are not hashed into the combining challenge r'})
def fixed(p, commit, what):
    K.append({'id': 'fixed-%s-%s' % (p, commit), 'property': p, 'status': 'fixed', 'scenario': '', 'label': '',
              'what': 'fixed: property=%s %s %s' % (p, commit, what)})
for p in ('C08', 'C10', 'C24'):
    fixed(p, '684fed4', 'TIPA and TIPA-SSM panicked on statements of length one and on proofs without rounds')
fixed('C24', '5f82ecb', 'GIPA and GIPA-SSM verification panicked on a wrong number of rounds')
for p in ('C15', 'C17'):
    fixed(p, '17b4a15', 'setup for univariate degree 0 divided by zero')
    fixed(p, '21a4b9c', 'univariate commit and open, and bivariate open, truncated polynomials beyond the capacity of the key')
fixed('C27', 'df608a0', 'aggregate verification checked only the length of the first row of public inputs (by a panic), ignored surplus rows and values, and panicked without rows')
fixed('C24', 'df608a0', 'aggregate verification panicked without rows of public inputs')
json.dump({'findings': K}, open(V + '/known_findings.json', 'w'), indent=1)

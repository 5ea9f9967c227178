#!/usr/bin/env python3
"""Writes MANIFEST.json. Usage: gen_manifest.py C01 C02 ... (the claimed properties)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
claimed = sys.argv[1:] or [p['id'] for p in props]
NOTE = ("Bounded: every path of the real code (compiled from /repo) over symbolic field/group elements and oracle outputs, "
        "within the listed sizes and number of simultaneously special branches; identities by cvc5/z3 or by the executor's "
        "normal form, whose rewrites z3 re-checks; paths and counterexamples replayed on BLS12-381. Trusts: groups as discrete logs, "
        "digest as random oracle, the ark-* crates, rustc.")
m = {
 'version': 1,
 'setup_cmd': './setup.sh',
 'hooks': {'guard': 'cfg(ripp_verif)', 'enable': 'RUSTFLAGS="--cfg ripp_verif" (set by run_check)', 'source_commits': ['675e049']},
 'checks': [{
    'property': p['id'], 'quick_cmd': './run_check %s --tier quick' % p['id'], 'thorough_cmd': './run_check %s --tier thorough' % p['id'],
    'technique': 'bounded symbolic execution of the real generic Rust code over symbolic field/group types, SMT (cvc5, z3) deciding branches and assertions',
    'level': 'model_checking', 'level_note': NOTE} for p in props if p['id'] in claimed],
 'not_applicable': [{'property': p['id'], 'reason': 'check not built yet'} for p in props if p['id'] not in claimed],
}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)

"""writes MANIFEST.json from the property list and the checks that exist"""
import json, os, sys, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
src = ''.join(open(os.path.join(ROOT, 'analysis', m + '.py')).read() for m in ('p_gen', 'p_mod', 'p_snd', 'p_fmt', 'p_util', 'p_fx', 'p_tool') if os.path.exists(os.path.join(ROOT, 'analysis', m + '.py')))
NA = {
 'C44': 'the roll-off is a magnitude response over a continuum of frequencies and settings: a numerical fact that no shape of the code settles. The coefficients themselves, the recursion, the behaviour at zero (and, for the band-pass, half the sampling) frequency and stability are decided by C09-C11 and C48',
 'C46': 'the decoding is done inside the wav dependency, which is outside the repository; the part done here, from a decoded header and data to tracks, is decided by C36',
}
LEVEL = {}
TECH = 'abstract interpretation of MIR into gated value-numbered transfer functions; identities between normal forms'
TECHS = {
 'C40': 'effect analysis: reachable calls in the resolved call graph of the MIR',
 'C41': 'abstract interpretation of MIR: panic conditions of every path from the entry points',
 'C34': 'abstract interpretation of MIR: ordered write effects and must-precede conditions',
 'C43': 'abstract interpretation of the tool\'s MIR: strings as literal + one table entry per input byte modulo white space, every fallible operation both succeeding and failing',
}
NOTE = 'Identities between the transfer functions extracted from the working tree, on every path, read over the reals unless the property is about rounding. Trusted: the extraction (driver, interp, models of std/petgraph/rand/wav), the normaliser. An identity that does not reduce is reported only with a point reachable through the public interface where the two normal forms differ in value; otherwise it is counted as open in the evidence.'
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA: na.append({'property': i, 'reason': NA[i]}); continue
    if not re.search(r'^def %s\(' % i, src, re.M):
        na.append({'property': i, 'reason': 'no check yet'}); continue
    checks.append({'property': i, 'quick_cmd': './check.sh ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + i, 'technique': TECHS.get(i, TECH), 'level': 'other', 'level_note': NOTE})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: /repo carries only fix: commits. The probe crate names the public interface; the driver dumps the MIR reachable from it.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na])

"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SE = 'bounded symbolic execution of the compiled LLVM IR, obligations decided by an SMT solver (Z3 behind a sound linear pre-solver), counterexamples replayed natively'
TRUST = ' Trusted: rustc/LLVM up to the IR and below it, lib/ll.py + lib/ex.py (the executor; replayed against native code on every run), Z3.'
CLAIMS = {
 'C01': 'For all 64-bit clip corners, cursors, line heights, and all frame buffers: one cluster of each chosen glyph shape (all 541 in thorough) returns without panic or out-of-bounds access.',
 'C02': 'Same inputs as C01: no bit outside the clip rectangle or screen changes; proved per glyph shape with symbolic bitmap.',
 'C03': 'Pixel-exact for every row, alignment and vertical clip, symbolic bitmap, every glyph shape; plus every cluster\'s actual bitmap compared with the sprite sheets.',
 'C04': 'Advance and wrap decision exact for all cursors and clips, per glyph width.',
 'C05': 'Line spacing and line height exact for all cursors, clips and line heights, per font and glyph width, plus newline.',
 'C13': 'Control flow and changed bits proved independent of the frame buffer contents (symbolic contents).',
}
exec(open(os.path.join(V, 'tools', 'claims.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'claims.py')) else None
NA = {'C25': 'Running the generator end to end is a concrete run over files (PNG decoding, text templates), with no symbolic input and no bound to decide; a solver adds nothing to a file comparison. Its parts (C20-C23) are decided symbolically, and C03/C07/C08 decide that the committed font files draw what the sprite sheets and index files say.'}
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3-vt tools/setup.py',
  hooks=dict(guard='verif_hooks', enable="RUSTFLAGS='--cfg verif_hooks' (set by lib/build.py)", source_commits=['6902af8','080ddfa']),
  checks=[], not_applicable=[])
for p in props:
    if p in CLAIMS:
        c = CLAIMS[p]
        tech, note = (SE, c) if isinstance(c, str) else c
        m['checks'].append(dict(property=p, quick_cmd='./check %s' % p, thorough_cmd='VERIF_TIER=thorough ./check %s' % p,
            evidence_file='evidence/%s.json' % p, technique=tech, level='model_checking', level_note=note + TRUST))
    else:
        m['not_applicable'].append(dict(property=p, reason=NA.get(p, 'Check not built yet.')))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed')

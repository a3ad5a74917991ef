#!/usr/bin/env python3
# Writes ../MANIFEST.json from the list of the built checks and properties.jsonl.
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
src = ''.join(open(f).read() for f in sorted(glob.glob(V + '/harness/*.go')))
built = set(re.findall(r'(?:id: |structCheck\()"(P\d\d)"', src))
tech = {
 'P01': 'online monitor of the token stream (tiling of the text) over hostile texts',
 'P02': 'monitor comparing every token and identifier position with a reference lexer',
 'P03': 'monitor comparing the token stream with a reference lexer',
 'P04': 'differential monitor over layouts of one token sequence',
 'P05': 'differential monitor over letter cases of one token sequence',
 'P06': 'crash, hang and work monitor over hostile texts (panic trap, CPU and memory watch dog, allocation counts)',
 'P13': 'monitor of acceptance and error places over damaged sources',
 'P14': 'trace oracle: scope model of generated sources against observed references',
 'P15': 'trace oracle: scope model of generated projects of unit files against observed references',
 'P16': 'monitor of unit loading (results and inotify event log) over generated dependency graphs',
 'P17': 'trace oracle: scope model of generated type sections against observed references',
 'P18': 'trace oracle: member model of generated class chains against observed property links',
 'P19': 'monitor of acceptance over enumerated pairs of declarations in generated surroundings',
 'P20': 'history monitor: results in one process compared with results of fresh processes',
 'P21': 'Go race detector plus comparison of concurrent with sequential results',
 'P22': 'differential monitor of file and in-memory parses, with injected file faults',
 'P23': 'online monitor of the walk against the fields of the tree (reflection)',
 'P24': 'model-based monitor of random operation histories',
 'P26': 'monitor comparing constructed nodes with parsed ones over generated sources',
 'P27': 'model-based monitor of token tests and of random list and set histories',
 'P25': 'monitor of acceptance and type predicates over generated alias chains',
}
note = 'Exploration by generated and hostile workloads: the oracle judges what the running code returned on each of them; nothing is claimed about inputs which were not run. Trusts the generator\'s model of the grammar (cross-checked by being quiet on the unchanged tree), the Go toolchain and the checks\' own reference code.'
checks = []; na = []
for p in props:
    i = p['id']
    if i in built:
        checks.append({"property": i, "quick_cmd": "bash check.sh %s quick" % i, "thorough_cmd": "bash check.sh %s thorough" % i,
          "technique": tech.get(i, 'result-tree monitor against trees emitted by the workload generator'), "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": "its check is not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
 "notes": "No hooks in /repo: every monitor observes through the public interface. Replays: bash check.sh <id> replay <file>."}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), [x['property'] for x in na])

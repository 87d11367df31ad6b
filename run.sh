#!/bin/bash
# run.sh PROP SECONDS [SEED] [extra]: development helper
export SIM_KNOWN=$(grep '^finding:' /verif/known_findings.txt | sed 's/.*id=\([^ ]*\).*/\1/' | tr '\n' ',')
p=$1; t=$2; s=${3:-1}; shift 3
o=/tmp/o$p; rm -rf $o; mkdir -p $o; E=$(python3 /verif/build.py $p) || { echo "$E"; exit 2; }
$E explore --prop $p --seed $s --time $t --out $o "$@"; echo "exit $?"; cut -c1-600 $o/result
python3 - <<X
import glob,json
l=[json.load(open(f)) for f in glob.glob('$o/stats*')]
print('runs',sum(x['runs'] for x in l),'maxwall',max(x['max_wall'] for x in l),'scen',{k:sum(x['scenarios'].get(k,0) for x in l) for k in l[0]['scenarios']},'probes',[sum(x['probes'][i] for x in l) for i in range(8)],'faults',{k:sum(x['fired'][k] for x in l) for k in l[0]['fired'] if sum(x['fired'][k] for x in l)}, 'known', [x['known_txt'] for x in l if x['known_txt']][:1])
X

#!/bin/bash
# refac.sh KIND [IDs]: rewrite a copy of the library without changing its behaviour, run its tests, and the checks, which should stay quiet
K=$1; shift
R=/tmp/refac_$K
rm -rf /tmp/refac_"$K"; cp -a /repo $R
python3-vt /verif/tools/refac.py "$K" $R/sdk/python/lib || exit 1
sed "s#/repo#$R#g; s#unset PYTHONPATH PYTHONHOME#export PYTHONPATH=$R/sdk/python/lib#" /opt/vp/test.sh | sed "s#\$C:\$META#\$C:\$META:$R/sdk/python/lib#" > /tmp/refac_test_$K.sh
bash /tmp/refac_test_$K.sh /tmp/refac_$K.json > /dev/null 2>&1
python3 -c "
import json
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/refac_$K.json')).get('passed',[]))
print('$K', 'tests', 'ok' if s<=p else sorted(s-p)[:5])"
cp -a /verif /tmp/refac_v_$K
cd /tmp/refac_v_$K
run() { PV_REPO_LIB=$2 timeout 900 python3 check.py $1 > /tmp/refac_out_$3_$1.txt 2>&1; rc=$?; echo "$3 $1 rc=$rc $(grep -a '^VIOLATION' /tmp/refac_out_$3_$1.txt | sed 's/replay=.*json//' | head -1)"; }
export -f run
for i in ${@:-$(seq -f 'C%02g' 1 29 | grep -v C24)}; do echo $i; done | xargs -P ${P:-4} -I{} bash -c "run {} $R/sdk/python/lib $K"
mkdir -p /tmp/refac_ev_$K; cp -a replays /tmp/refac_ev_$K/ 2>/dev/null
rm -rf /tmp/refac_v_"$K"

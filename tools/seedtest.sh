#!/bin/bash
# seedtest.sh ID "PROPS": /tmp/w holds an edited copy of /repo. Writes seeded/ID/patch.diff, runs the
# demo on both trees, the repository's tests on the copy and, with CHECK=1, the checks of PROPS against it.
ID=$1; PROP=$2; D=/verif/seeded/$ID; mkdir -p $D
[ -d /tmp/vpw ] || { mkdir -p /tmp/vpw; cp -r /opt/vp/cmake /opt/vp/*.sh /opt/vp/*.py /opt/vp/*.json /tmp/vpw/; sed -i 's#/opt/vp#/tmp/vpw#g; s#REPO=/repo B=/repo/_build#REPO=/tmp/w B=/tmp/wb#' /tmp/vpw/*.sh; sed -i 's#/repo#/tmp/w#g; s#/opt/vp#/tmp/vpw#g' /tmp/vpw/cmake/CMakeLists.txt; }
diff -ru --label a --label b /repo/include /tmp/w/include > /dev/null && { echo "no change"; exit 1; }
(cd /tmp/w && git diff) > $D/patch.diff
git -C /repo apply --check $D/patch.diff || { echo "patch does not apply"; exit 1; }
(cd /repo && timeout 300 bash $D/demo.sh > /tmp/d0.log 2>&1); R0=$?
(cd /tmp/w && timeout 300 bash $D/demo.sh > /tmp/d1.log 2>&1); R1=$?
echo "demo clean: $R0 patched: $R1"; [ $R0 = 0 ] || tail -5 /tmp/d0.log; tail -2 /tmp/d1.log
[ $R0 = 0 -a $R1 != 0 ] || exit 1
bash /tmp/vpw/test.sh /tmp/wo.json > /tmp/wtest.log 2>&1; T=$(tail -1 /tmp/wtest.log); echo "$T"
case "$T" in *" 0 failed"*) ;; *) grep -E "Failed|Not Run" /tmp/wtest.log | head -4; exit 1;; esac
[ -n "$CHECK" ] && for p in $PROP; do echo "-- $p"; VERIF_REPO=/tmp/w timeout 900 python3 /tmp/vc/run.py check $p 2>&1 | grep -E "^VIOLATION|ERROR|NOT CONF|^  [a-z0-9_]+ /|wall=|BUILD" | head -6; done
echo "KEPT $ID"

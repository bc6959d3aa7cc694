#!/bin/bash
# autobug.sh <id> <check> : stable tests + check on the patched copy; writes demo.py from one of the replays; confirms it.
# Prints a line "KEEP <id>" when everything holds (then mv wip/<id> seeded/<id>).
ID=$1; CK=$2; export SR=${SR:-/tmp/sr}
B=/verif/seeded/$ID; [ -d $B ] || B=/verif/wip/$ID
bash /verif/dev/trybug.sh $ID $CK > /tmp/ab.$ID.log 2>&1
grep -v "demo with" /tmp/ab.$ID.log
R=/tmp/rep/$ID; mkdir -p $R; cp /verif/evidence/replays/$CK-*.json $R/ 2>/dev/null
grep -q "stable tests OK" /tmp/ab.$ID.log || { echo "DROP $ID"; exit 1; }
grep -q "check $CK rc=1" /tmp/ab.$ID.log || { echo "MISSED $ID"; exit 1; }
for n in 0 1 2 3 4; do
  [ -f $R/$CK-$n.json ] || continue
  (cd /verif && python3-vt dev/mkdemo.py $ID $R/$CK-$n.json > /tmp/ab.demo 2>&1) || continue
  NOTEST=1 CLEANDEMO=1 bash /verif/dev/trybug.sh $ID > /tmp/ab.$ID.log2 2>&1
  if ! grep -q "demo with patch rc=0" /tmp/ab.$ID.log2 && grep -q "demo without patch rc=0" /tmp/ab.$ID.log2; then echo "KEEP $ID ($n)"; exit 0; fi
done
echo "NODEMO $ID"

# Runs every mutant of the models; each must violate an invariant (rc=12).
cd "$(dirname "$0")/../spec"
for f in ${1:-Neg_*.cfg}; do m=$(echo $f | sed 's/Neg_\([A-Za-z]*\)_.*/MC\1/'); d=$(mktemp -d); timeout 300 java -Xmx3g -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 4 -metadir $d -noGenerateSpecTE -config $f $m.tla > /tmp/neg.out 2>&1; echo "$f rc=$? $(grep -m1 -E 'Error: (Invariant|.*violated)' /tmp/neg.out)"; rm -rf "$d"; done
# and every wrong lemma of Unbounded, which Apalache must refute (rc=12)
[ -n "$1" ] || for i in $(grep -o '^Wrong[A-Za-z]*' Unbounded.tla); do d=$(mktemp -d); timeout 300 apalache-mc check --length=0 --inv=$i --out-dir=$d Unbounded.tla > /tmp/neg.out 2>&1; echo "Unbounded $i rc=$?"; rm -rf "$d"; done

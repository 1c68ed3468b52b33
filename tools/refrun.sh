# refrun.sh refactor.py CHECKS
rm -rf /tmp/refw; cp -a /repo /tmp/refw; python3 $1 /tmp/refw || exit 3
(cd /tmp/refw; gcc -std=gnu89 -D_XOPEN_SOURCE=600 -Isrc -I/usr/local/include -w -fsyntax-only src/*.c || echo SYNTAX)
for c in ${2//,/ }; do OCR_REPO=/tmp/refw VERIF_DEBUG=$D timeout 600 python3 run.py $c 2>&1 | cut -c1-400 | tail -3; done
rm -rf /tmp/refw

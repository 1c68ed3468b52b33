# refpar.sh refactor.py CHECKS : like refrun.sh, the checks run at the same time
W=/tmp/refp.$$; cp -a /repo $W; python3 $1 $W || { rm -rf $W; exit 3; }
(cd $W; gcc -std=gnu89 -D_XOPEN_SOURCE=600 -Isrc -I/usr/local/include -w -fsyntax-only src/*.c || echo SYNTAX)
[ "$2" = all ] && L=$(ls checks/C*.py | sed 's/.*\///;s/.py//') || L=${2//,/ }
mkdir -p $W.ev
for c in $L; do echo $c; done | OCR_REPO=$W VERIF_DEBUG=$D xargs -P6 -I{} sh -c 'timeout 800 python3 run.py {} 2>&1 | grep -v held | tail -3 | cut -c1-300'
rm -rf $W $W.ev

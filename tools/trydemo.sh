#!/bin/bash
# trydemo.sh ID [targets]: demo on the clean tree, then with the patch (rebuilding the kernel libraries only), undo
id=$1; d=/verif/seeded/$id
tg=${2:-libHPGEM.a}
b() { ninja -C /repo/_build kernel/libHPGEM.a kernel/libLogger.a $EXTRA >/tmp/nb.log 2>&1 || { tail -30 /tmp/nb.log; return 1; }; [ -n "$REAL" ] && { ninja -C /repo/_build_real kernel/libHPGEM.a kernel/libLogger.a >/tmp/nb2.log 2>&1 || return 1; }; return 0; }
b || exit 9
(cd /repo && bash $d/demo.sh); r1=$?
git -C /repo apply $d/patch.diff || exit 9
b; r3=$?
(cd /repo && bash $d/demo.sh); r2=$?
git -C /repo checkout -q -- .
b
echo "$id clean=$r1 build=$r3 patched=$r2"

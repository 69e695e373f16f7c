#!/bin/bash
# check.sh PROPERTY [quick|thorough]
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
cd "$V" || exit 2
id=$1; tier=${2:-${VERIF_TIER:-quick}}
case $id in
    C12) g=dec ;; C13 | C24 | C26) g=rr ;; C19) g=ls ;; C25) g=sel ;; C20) g=split ;; C22) g='none web' ;; *) g=core ;;
esac
args=$g; case $id in C16 | C23) args="$g dimacs" ;; esac
bash "$V/build.sh" $args || exit 2
export VERIF_DIR=$V DST_APP=$V/target/release/app DST_PROBE=$V/target/release/probe DST_APP_DIMACS=$V/target/dimacs/release/app_dimacs
bin=$V/target/release/dst; [ $id = C22 ] && bin=$V/target/web/release/dst
"$bin" check "$id" --tier "$tier" --seed "${VERIF_SEED:-1}"

#!/bin/bash
# run.sh PROPERTY [quick|thorough]: build the harness from /repo's working tree and run one check.
P=$1
TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_DIR=${VERIF_DIR:-$(cd "$(dirname "$0")" && pwd)}
case $P in
P09|P10|P11) BINS="dst-solvers dst-kissat" ;;
P12|P18) BINS="dst-solvers" ;;
P21) BINS="dst-capi" ;;
P19) BINS="dst-tools" ;;
P32) BINS="dst-py" ;;
P33) BINS="dst-ipasir" ;;
*) BINS="dst-core" ;;
esac
for BIN in $BINS; do
  if ! bash "$VERIF_DIR/build.sh" "$BIN" >"$VERIF_DIR/target-$BIN.log" 2>&1; then
    tail -40 "$VERIF_DIR/target-$BIN.log"
    echo "HARNESS: build of $BIN failed"
    exit 2
  fi
done
set -- $BINS
exec "$VERIF_DIR/target/debug/$1" check "$P" --tier "$TIER"

#!/bin/bash
# check.sh <property>: build the monitor of that property against /repo's working tree, then run it.
cd /verif || exit 3
. ./env.sh
case "$1" in
  C01|C02) BIN=vm_field;;
  C03|C04|C08) BIN=vm_curve;;
  C05|C06) BIN=vm_poly;;
  C07) BIN=vm_ser;;
  C09|C10) BIN=vm_hash;;
  C14|C15|C16|C17|C18) BIN=vm_gates;;
  C11|C12|C13|C19|C20|C22) BIN=vm_proof;;
  C21) BIN=vm_plookup;;
  C23) BIN=vm_conc;;
  C25) BIN=vm_recur;;
  C26) BIN=vm_witness;;
  *) echo "unknown property $1"; exit 3;;
esac
LOG=$(mktemp /tmp/vmon-build.XXXXXX)
if ! cargo build --offline --manifest-path harness/Cargo.toml --bin $BIN >"$LOG" 2>&1; then
  echo "BUILD FAILED"; grep -E '^error' -A6 "$LOG" | head -40; rm -f "$LOG"; exit 3
fi
if [ "$1" = C23 ]; then
  . ./tsan.sh
  if ! tsan_build >"$LOG" 2>&1; then
    echo "BUILD FAILED (ThreadSanitizer)"; grep -E '^error' -A6 "$LOG" | head -40; rm -f "$LOG"; exit 3
  fi
fi
RUN=$CARGO_TARGET_DIR/debug/$BIN
if [ "$1" = C25 ]; then
  # With the hooks, unless they do not fit the private functions of this tree.
  . ./recur.sh
  if recur_build >"$LOG" 2>&1; then RUN=$RECUR_BIN; else echo "the hooks do not compile: observing the public parts only"; fi
fi
rm -f "$LOG"
"$RUN" "$1"
RC=$?
case $RC in
  0|1|3) exit $RC;;
  132|134|135|136|139)
    # The monitor runs no unsafe code of its own: an abort or a fault (stack exhausted, absurd allocation, double panic)
    # comes from the code under test.
    R=evidence/replay/$1-abort.txt
    mkdir -p evidence/replay
    echo "process ended by signal $((RC-128)) in property $1, seed ${VERIF_SEED:-1}, tier ${VERIF_TIER:-quick}: run $BIN $1" >"$R"
    printf '{"property": "%s", "tier": "%s", "seed": %s, "level": "exploration", "wall_s": %s, "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "the process was ended by a signal before it could report its counts", "samples": ["signal %s"]}}\n' "$1" "${VERIF_TIER:-quick}" "${VERIF_SEED:-1}" $SECONDS $((RC-128)) >evidence/$1.json
    echo "VIOLATION property=$1 replay=$R"
    exit 1;;
  *) exit 3;;
esac

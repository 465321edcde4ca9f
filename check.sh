#!/bin/bash
# check.sh <ID> [--tier quick|thorough] [--replay FILE]
# Builds the harness against /repo's current working tree and decides property <ID>.
# Exit 0: held on everything explored.  1: VIOLATION line printed.  Anything else: error of the check.
set -u
cd "$(dirname "$0")" || exit 2
export VP_DIR="$PWD"
mkdir -p evidence replays harness/target
(
  flock 9
  # cargo judges freshness by time stamps; judge by content instead
  sum=$(cd /repo && find lib Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
  stamp=harness/target/repo.sum
  if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
    (cd harness && cargo clean --release --offline -p mazth -p vp; cargo clean --profile cov --offline -p mazth -p vp) >/dev/null 2>&1
  fi
  if ! (cd harness && cargo build --release --offline --locked) >harness/target/build.log 2>&1; then
    grep -A8 -E '^error' harness/target/build.log >&2
    echo "error: the harness does not build against /repo" >&2
    exit 2
  fi
  # again with the edges of the library counted, for the coverage-guided part
  if (cd harness && RUSTC_WRAPPER="$VP_DIR/tools/rustc-cov.sh" cargo build --profile cov --offline --locked) >harness/target/build-cov.log 2>&1; then
    [ -e harness/target/vp-cov ] || ln -s cov/vp harness/target/vp-cov
  else
    rm -f harness/target/vp-cov
    echo "warning: no coverage build, random cases only (harness/target/build-cov.log)" >&2
  fi
  echo "$sum" >"$stamp"
) 9>harness/target/lock || exit 2
[ "${1:-}" = "--build" ] && exit 0
[ -x harness/target/vp-cov ] && export VP_COV="$VP_DIR/harness/target/vp-cov"
exec harness/target/release/vp "$@"

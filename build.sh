# Builds the simulator and the programs under test (sourced or run).
# Crates of /repo are rebuilt when their contents change (not only their mtimes).
[ -f /opt/vp/env.sh ] && source /opt/vp/env.sh
unset CARGO_INCREMENTAL RUSTFLAGS CARGO_TARGET_DIR
export CARGO_NET_OFFLINE=true
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
mkdir -p "$V/work" "$V/sut/target/srchash"
(
  flock 9
  cd "$V" && cargo build --offline --release -q 2> work/build.log || { cat work/build.log >&2; exit 1; }
  cd "$V/sut" || exit 1
  stale=()
  while read -r crate dir; do
    h=$(find "$dir" -type f \( -name '*.rs' -o -name '*.toml' \) -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
    if [ "$(cat "target/srchash/$crate" 2>/dev/null)" != "$h" ]; then
      stale+=("$crate:$h")
      cargo clean --offline -q -p "$crate" 2>/dev/null
      rm -f "$V/sut/target/srchash/$crate"
    fi
  done <<'L'
rawler /repo/rawler
embedftp /repo/embedftp
dnglab_lib /repo/bin/dnglab/dnglab-lib
dnglab /repo/bin/dnglab/src
L
  cargo build --offline -q 2> ../work/build-sut.log || { cat ../work/build-sut.log >&2; exit 1; }
  for s in "${stale[@]}"; do echo "${s#*:}" > "target/srchash/${s%%:*}"; done
  exit 0
) 9> "$V/work/build.lock"

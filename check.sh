#!/bin/bash
# check.sh <property> <quick|thorough>: builds the simulator against /repo's working tree and runs
# one property's check. check.sh build: only builds. check.sh replay <file>: replays a plan file.
cd "$(dirname "$0")" || exit 3
here=$PWD
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
target=$here/target
seed=${VERIF_SEED:-1}
mkdir -p evidence replays "$target"

# name:profile:features
variants=(
  "std:dev:std,fixed"
  "libm:dev:libm,fixed"
  "micromath:dev:micromath,fixed"
  "std-release:release:std,fixed,no_assert"
  "libm-unsafe:dev:libm,fixed,unsafe"
  "micromath-release:release:micromath,unsafe,no_assert"
  "all:release:std,libm,micromath,fixed,unsafe,no_assert"
)

build() { # name profile features
  local log=$target/build-$1.log
  if ! cargo build --offline --locked --manifest-path sim/Cargo.toml --target-dir "$target/$1" \
      --profile "$2" --no-default-features --features "$3" >"$log" 2>&1; then
    echo "build of the simulator ($1) failed:" >&2
    grep -E '^error' -A12 "$log" | head -60 >&2
    return 1
  fi
}
bin() { # name profile
  if [ "$2" = dev ]; then echo "$target/$1/debug/kalman-sim"; else echo "$target/$1/$2/kalman-sim"; fi
}
split() { IFS=: read -r name profile features <<<"$1"; }

case "$1" in
  build)
    for v in "${variants[@]}"; do split "$v"; build "$name" "$profile" "$features" & done
    rc=0
    for j in $(jobs -p); do wait "$j" || rc=3; done
    exit $rc
    ;;
  replay)
    [ -f "$2" ] || { echo "no such file: $2" >&2; exit 3; }
    # the build the plan was recorded with
    want=$(sed -n 's/^# variant //p' "$2" | head -1)
    for v in "${variants[@]}"; do
      split "$v"
      if [ "$name" = "${want:-std}" ]; then
        build "$name" "$profile" "$features" || exit 3
        exec "$(bin "$name" "$profile")" replay "$2"
      fi
    done
    echo "unknown build ${want}" >&2
    exit 3
    ;;
esac

id=$1
tier=${2:-${VERIF_TIER:-quick}}
cap=400
[ "$tier" = thorough ] && cap=7200

# C16 runs everything in every build; the others run four fifths in the plain build and the rest
# in the build with all features, without any assertions.
if [ "$id" = C16 ]; then
  use=("${variants[@]}")
  share() { echo 0-100; }
else
  use=("${variants[0]}" "${variants[6]}")
  share() { [ "$1" = std ] && echo 0-80 || echo 80-100; }
fi

rm -f "$target"/part-*.json
pids=()
for v in "${use[@]}"; do
  split "$v"
  build "$name" "$profile" "$features" & pids+=($!)
done
for p in "${pids[@]}"; do wait "$p" || exit 3; done
rc=0
parts=()
for v in "${use[@]}"; do
  split "$v"
  part=$target/part-$name.json
  "$(bin "$name" "$profile")" check "$id" --tier "$tier" --seed "$seed" --cap "$cap" --evidence "$part" \
    --share "$(share "$name")" --replays "$here/replays" --label "$name"
  r=$?
  [ -f "$part" ] && parts+=("$part")
  if [ $r -eq 1 ]; then rc=1; break; elif [ $r -ne 0 ] && [ $rc -eq 0 ]; then rc=$r; fi
done
python3 sim/merge.py "evidence/$id.json" "${parts[@]}" || exit 3
exit $rc

#!/bin/bash
# build.sh REPO OUT [MAIN.rs]: REPO/src with stand-ins for pyo3 and rayon, and MAIN (or its own #[test]s)
set -e
here=$(cd "$(dirname "$0")" && pwd); repo=$1; out=$2; main=$3
mkdir -p "$out"; cp -r "$repo/src" "$out/src"
rustc -q --edition 2024 --crate-type proc-macro --crate-name pyo3 "$here/pyo3.rs" --out-dir "$out" 2>/dev/null || \
rustc --edition 2024 --crate-type proc-macro --crate-name pyo3 "$here/pyo3.rs" --out-dir "$out"
rustc --edition 2024 --crate-type rlib --crate-name rayon "$here/rayon.rs" --out-dir "$out"
X="--edition 2024 -A warnings -C opt-level=1 --extern pyo3=$out/libpyo3.so --extern rayon=$out/librayon.rlib"
if [ -n "$main" ]; then
  { cat "$out/src/lib.rs" | sed 's/^#!\[.*//' > /dev/null; grep -E '^mod [a-z]+;' "$out/src/lib.rs"; cat "$main"; } > "$out/src/main_.rs"
  rustc $X -C overflow-checks=on --crate-name demo "$out/src/main_.rs" -o "$out/demo"
else
  rustc $X --test --crate-name t "$out/src/lib.rs" -o "$out/t"
fi

#!/bin/bash
# the bindings of the module below call it as Python would
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
mkdir -p $D/vpdemo
cat > $D/vpdemo/__init__.py <<'P'
@PY@
P
export PYTHONPATH=$D RUST_BACKTRACE=0 PYTHONDONTWRITEBYTECODE=1
target/debug/pyo3_bindgen -m vpdemo -o $D/out.rs || exit 2
cat > $D/main.rs <<'R'
extern crate pyo3 as _pyo3_is_linked;
use pyo3::prelude::*;
include!("out.rs");
fn run(py: Python) -> PyResult<()> {
@RS@
    Ok(())
}
fn main() {
    pyo3::prepare_freethreaded_python();
    Python::with_gil(|py| if let Err(e) = run(py) { println!("{e}"); std::process::exit(1) })
}
R
for l in $(ls -t target/debug/deps/libpyo3-*.rlib); do LIB=$l; break; done
rustc --edition 2021 --cap-lints allow $D/main.rs -o $D/main -L dependency=target/debug/deps --extern pyo3=$LIB 2>$D/err || { head -20 $D/err; exit 1; }
$D/main

#!/bin/bash
cd "$(dirname "$0")" && RUSTFLAGS="--cfg mortal_verif --cap-lints warn" cargo build --offline --release 2>&1 | grep -E "^(error|warning: unused)" -A9 | head -${1:-60}

#!/bin/bash
# offline build of the extractor and of the harness binaries
cd "$(dirname "$0")" || exit 1
(cd tool && env -u RUSTUP_TOOLCHAIN cargo +stable build --offline --quiet) || exit 1
. ./env.sh
python3 - <<'P'
import sys; sys.argv=["run.py"]
sys.path.insert(0,".")
import run
bins=sorted({b for c in run.CONF.values() if c.get("bin") for b in [c["bin"]]+c.get("more_bins",[])})
rc,out=run.build(bins)
print(out[-2000:])
sys.exit(rc)
P

#!/bin/bash
# refresh /tmp/sr (repo copy) and /tmp/sv (verif copy pointing at it)
mkdir -p /tmp/sr /tmp/sv
rsync -a --delete --exclude target /repo/ /tmp/sr/
rsync -a --delete --exclude target --exclude evidence --exclude seeded --exclude replays /verif/ /tmp/sv/
sed -i 's#"/repo/#"/tmp/sr/#' /tmp/sv/harness/*/Cargo.toml /tmp/sv/harness/h_cpu/src/u_prog.rs

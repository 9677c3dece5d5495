#!/bin/bash
# Builds the harness once (offline); every check rebuilds what changed.
. /verif/env.sh
cd /verif/mc && exec cargo build --release --offline

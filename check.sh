#!/bin/bash
# usage: check.sh <property> [quick|thorough]
cd /verif || exit 3
mkdir -p evidence scratch
./build.sh || exit 3
exec ./target/release/mc check "$1" "${2:-${VERIF_TIER:-quick}}"

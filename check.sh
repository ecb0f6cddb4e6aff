#!/bin/bash
# check.sh PROPERTY quick|thorough: builds from /repo's current tree and decides the property.
root="$(cd "$(dirname "$0")" && pwd)"
bash "$root/build.sh" "$1" || { echo "cannot build the simulator against /repo" >&2; exit 2; }
ADSIM_ROOT="$root" exec "$root/sim/target/release/adsim" check "$1" "${2:-quick}"

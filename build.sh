#!/bin/bash
# Builds the verifier (offline) into /verif/bin.
set -e
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd "$here/gov"
mkdir -p "$here/bin"
go build -o "$here/bin/gov" .

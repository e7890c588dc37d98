#!/bin/bash
# developer entry: build the engine and run one property with options
. /opt/vp/env.sh
cd /verif/engine && go build -mod=vendor -o /verif/bin/engine . || exit 3
exec /verif/bin/engine "$@"

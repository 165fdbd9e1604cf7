#!/bin/bash
# har.sh PROP: run the differential harness of a property on /repo's current source (development aid)
cd /verif && VERIF_SEED=${VERIF_SEED:-1} timeout 400 /tmp/gocv replay $1

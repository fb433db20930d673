#!/bin/sh
# usage: check.sh PROPERTY [quick|thorough]   builds the engine and decides one property
cd /verif || exit 2
mkdir -p bin work evidence
sh b.sh || exit 2
exec ./bin/gosym check "$1" --tier "${2:-quick}"

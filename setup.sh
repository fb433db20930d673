#!/bin/sh
cd /verif || exit 2
mkdir -p bin
sh b.sh

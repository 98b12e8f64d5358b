#!/bin/bash
# mut.sh file sed-expression harness variant [args]: runs a harness against a scratch copy of the sources with one edit (development aid)
M=$(mktemp -d /tmp/mut.XXXXXX); mkdir -p $M/libvoikko; cp -r /repo/libvoikko/src $M/libvoikko/src
f=$1; e=$2; shift 2
sed -i "$e" $M/libvoikko/src/$f; diff -q $M/libvoikko/src/$f /repo/libvoikko/src/$f >/dev/null && echo "NO CHANGE"
VERIF_REPO=$M bash /verif/tools/raw.sh "$@"; rm -rf "$M"

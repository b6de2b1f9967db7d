#!/bin/bash
# tools/t.sh PROP [seeds...] : regenerate the manifest and run the quick tier with several seeds
cd "$(dirname "$0")/.." || exit 2
p=$1; shift
/opt/venv/bin/python -W ignore tools/mkmanifest.py || exit 2
for s in ${@:-1}; do VERIF_SEED=$s bash check.sh $p quick; done

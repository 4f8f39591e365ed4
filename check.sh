#!/bin/bash
# usage: check.sh PROPERTY_ID [quick|thorough]
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; tier="${2:-quick}"
unset PYTHONPATH TRANSONIC_BACKEND TRANSONIC_COMPILE_AT_IMPORT
export LANG=C.UTF-8 PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=agg TRANSONIC_NO_REPLACE=1
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_DIR="$here"
scratch="$(mktemp -d /tmp/fluidimage-mc.XXXXXXXX)" || exit 2
case "$scratch" in /tmp/fluidimage-mc.*) ;; *) exit 2;; esac
trap 'rm -rf -- "$scratch"' EXIT
mkdir -p "$scratch/src" "$scratch/home" "$scratch/work" "$scratch/cfg"
# the current working tree of /repo, without generated/compiled back-end files
(cd /repo/src && tar -cf - --exclude=__pythran__ --exclude=__python__ --exclude=__numba__ \
    --exclude=__pycache__ --exclude='*.so' fluidimage) | tar -xf - -C "$scratch/src" || exit 2
export MC_SCRATCH="$scratch" TMPDIR="$scratch/work" HOME="$scratch/home" XDG_CONFIG_HOME="$scratch/cfg"
export FLUIDIMAGE_TESTS=1
export PYTHONPATH="$scratch/src:$here/mc/site:$here"
cd "$scratch/work" || exit 2
python -m mc.run "$prop" "$tier" ${3:+"$3"}
rc=$?
cd /
exit $rc

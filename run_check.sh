#!/bin/bash
# usage: run_check.sh <property> [quick|thorough] [--replay FILE]
# Explores the bounded space of property <property> on the code in /repo.
# exit 0: held on everything explored; exit 1 + VIOLATION line: broken.
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; shift
tier="${VERIF_TIER:-quick}"
case "$1" in quick|thorough) tier="$1"; shift;; esac
export VERIF_TIER="$tier"
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
scratch="$(mktemp -d "${TMPDIR:-/tmp}/mc-$prop-XXXXXX")" || exit 3
trap 'rm -rf "$scratch"' EXIT
export MC_SCRATCH="$scratch" MC_HOME="$here" MC_REPO="${MC_REPO:-/repo}"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$here:$MC_REPO"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export HOME="$scratch/home" XDG_CACHE_HOME="$scratch/home"
mkdir -p "$scratch/home" "$scratch/bin" "$scratch/dijitso"
export DIJITSO_CACHE_DIR="${MC_DIJITSO:-$scratch/dijitso}" # (MC_DIJITSO: only for experiments)
# a compiler wrapper that only makes the just-in-time compilations cheaper
cat > "$scratch/bin/g++" <<W
#!/bin/bash
a=("\${@/-O3/-O0}"); a=("\${a[@]/-O2/-O0}")
case "\$*" in
  *dolfin_expression_*) [ -f "$scratch/bin/pch.h.gch" ] && a=(-include "$scratch/bin/pch.h" "\${a[@]}");;
esac
exec /usr/bin/g++ "\${a[@]}"
W
chmod +x "$scratch/bin/g++"
cp "$scratch/bin/g++" "$scratch/bin/c++"
export PATH="$scratch/bin:$PATH"
cd "$scratch" || exit 3
"$py" -m mc.core "$prop" "$tier" "$@"
rc=$?
cd /
exit $rc

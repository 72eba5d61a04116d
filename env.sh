# pure-Python package: "building" = importing /repo's current sources (mc/__init__.py makes sure that
# no .pyc of the code under test is read or written)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export MC_REPO="${MC_REPO:-/repo}"
export PYTHONPATH="$MC_REPO"
PY=/opt/venv/bin/python

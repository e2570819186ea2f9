#!/bin/bash
cd "$(dirname "$0")" || exit 2
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin HOME=/root LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1
export VERIF_REPO="${VERIF_REPO:-/repo}" PYTHONPATH="${VERIF_REPO:-/repo}:$PWD"
exec /opt/venv/bin/python -W ignore -m vlib.setup

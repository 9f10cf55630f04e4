#!/bin/bash
# mkbug.sh ID: take the current working-tree change of /repo as seeded/ID/patch.diff and restore /repo
mkdir -p /verif/seeded/$1 && git -C /repo diff > /verif/seeded/$1/patch.diff && git -C /repo checkout -q -- . && wc -l /verif/seeded/$1/patch.diff

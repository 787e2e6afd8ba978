#!/usr/bin/env python3
"""Decide one property: python3 run.py <ID>   (python3 run.py setup builds)"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import codes, core, db, export, foreign, fresh, headers, layouts, life, errors, newitems, piecewise, probes, saves, tamper, tools, values  # noqa: E402

CHECKS = {
    'C12': db.c12, 'C13': db.c13, 'C14': db.c14, 'C15': db.c15,
    'C01': saves.c01, 'C05': saves.c05, 'C11': saves.c11, 'C16': saves.c16, 'C23': saves.c23,
    'C03': foreign.c03, 'C06': foreign.c06, 'C07': foreign.c07,
    'C04': tamper.c04, 'C10': piecewise.c10, 'C09': headers.c09,
    'C08': probes.c08,
    'C18': fresh.c18,
    'C21': layouts.c21,
    'C19': values.c19, 'C20': values.c20,
    'C24': tools.c24,
    'C25': export.c25,
    'C26': newitems.c26,
    'C27': errors.c27,
    'C28': codes.c28,
    'C02': life.c02, 'C17': life.c17, 'C22': life.c22,
}

if __name__ == '__main__':
    if len(sys.argv) != 2 or sys.argv[1] not in list(CHECKS) + ['setup']:
        print('usage: run.py setup|' + '|'.join(CHECKS))
        sys.exit(2)
    if sys.argv[1] == 'setup':
        core.build(force=False)
        tools.build_tools(force=False)
        sys.exit(0)
    sys.exit(core.main(sys.argv[1], CHECKS[sys.argv[1]]))

#!/usr/bin/env python3
"""Freezes tables of the pinned code which have no other specification (lib/tables.json)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = ['/repo']
from udapi.block.msf.case import Case
out = {'msf.case': Case.adposmap}
json.dump(out, open(V + '/lib/tables.json', 'w', encoding='utf-8'), ensure_ascii=False, indent=0, sort_keys=True)

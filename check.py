#!/usr/bin/env python3
"""check.py <property> : decides one property of /repo's working tree (tier and seed from the
environment: VERIF_TIER, VERIF_SEED).   check.py <property> --replay FILE : runs one recorded case again."""
import importlib, json, os, pathlib, sys
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent / "lib"))
sys.dont_write_bytecode = True
import vf

AREAS = {
    "page": ["C01", "C02"],
    "row": ["C03", "C04", "C05"],
    "json": ["C06", "C07", "C08"],
    "types": ["C09", "C10", "C22"],
    "sql": ["C11", "C12", "C13"],
    "catalog": ["C14"],
    "sqltypes": ["C15", "C16"],
    "pool": ["C17", "C18", "C19"],
    "geometry": ["C20"],
    "volume": ["C21"],
}

def main():
    prop = sys.argv[1]
    area = next(a for a, ps in AREAS.items() if prop in ps)
    mod = importlib.import_module("area_" + area)
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        cases = [r["case"] for r in json.load(open(sys.argv[3]))]
        vf.main(prop, lambda c: mod.replay(c, cases))
    vf.main(prop, mod.check)

main()

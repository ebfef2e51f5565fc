"""Regenerate ref/, the confirmed reference, from /repo's HEAD (only after reviewing every change).

mir.json.gz: the crate with its default features
min.json.gz: without any feature
rel.json.gz: without debug assertions
wit.json.gz: the witness crate
min-units.json: the functions whose behaviour depends on the features"""
import gzip, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sa"))
sys.setrecursionlimit(20000)
import dump
REF = os.path.join(dump.VERIF, "ref")


def save(src, name):
    with open(src, "rb") as f, open(os.path.join(REF, name), "wb") as g:
        with gzip.GzipFile(fileobj=g, mode="wb", mtime=0, compresslevel=9) as z:
            z.write(f.read())


save(dump.dump(), "mir.json.gz")
save(dump.dump(features=""), "min.json.gz")
save(dump.dump(release=True), "rel.json.gz")
save(dump.dump(witness=True), "wit.json.gz")
from verdict import *
s = Suite(load_ref("min.json.gz"), load_ref())
units = set(s.ck) - set(s.rk)
for u in s.ck:
    if u in s.rk and s.verdict(u).status != "equal":
        units.add(u)
with open(os.path.join(REF, "min-units.json"), "w") as f:
    json.dump(sorted(units), f, indent=1)

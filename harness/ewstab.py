"""Synthetic tables for the disaster message decoders (the tables are not part
of the repository): every code k of table f reads "f#k"."""
import json
import os

JMA = [6, 7, 8, 9, 10, 11, 15, 16, 19, 22, 23, 24, 31, 32, 33, 36, 40, 41, 44,
       45, 48, 49, 52, 53]


def keys_of(name):
    return range(1, 1200)


def install(tmp):
    """create the tables below tmp and make their relative path resolve"""
    for d in ("w", "data/ewss/jma", "data/ewss/camf"):
        os.makedirs(os.path.join(tmp, "ews", d), exist_ok=True)
    j = os.path.join(tmp, "ews/data/ewss/jma/")
    for n in JMA:
        with open(j+f"tab4_1_2_{n}.txt", "w", encoding="utf-8") as f:
            for k in list(range(0, 1024)) + [x*1000 for x in range(1, 100)]:
                f.write(f"{k}\tt{n}#{k}\n")
    c = os.path.join(tmp, "ews/data/ewss/camf/")
    for n in ("hazard", "list_a", "list_b", "list_c", "region", "d14", "d35"):
        with open(c+n+".txt", "w", encoding="utf-8") as f:
            for k in range(0, 1024):
                f.write(f"{k}\t{n}#{k}\n")
    with open(c+"jisx0401-en.json", "w") as f:
        json.dump({f"{k:02d}": f"pref#{k}" for k in range(0, 100)}, f)
    with open(c+"000323625.csv", "w") as f:
        f.write("code,pref,city,pk,ck\n")
        for k in range(1, 48):
            f.write(f"{k*1000+6},p{k},,x,\n")
    os.chdir(os.path.join(tmp, "ews/w"))

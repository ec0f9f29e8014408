"""Which workload families decide which property."""

from __future__ import annotations

import importlib
import json

_MODULES = ["anycast", "broadcast", "event", "timer", "pipeline", "filewatcher", "selecting",
            "churn", "mixed"]
FAMILIES: dict = {}
GENERATORS: dict = {}

for _m in _MODULES:
    _mod = importlib.import_module(f".families.{_m}", __package__)
    for _k, _v in vars(_mod).items():
        if isinstance(_v, type) and _k.endswith("Family") and _k != "Family" and _v.__module__ == _mod.__name__:
            FAMILIES[_m] = _v
    GENERATORS[_m] = _mod.generate

# The thorough tier runs this many times as many plans, the larger ones of them.
THOROUGH = 24

# property -> (families with weights, quick runs)
PROPS: dict = {
    "C01": ({"anycast": 1}, 48000),
    "C02": ({"anycast": 1}, 48000),
    "C03": ({"anycast": 1}, 48000),
    "C04": ({"anycast": 1}, 48000),
    "C05": ({"anycast": 1}, 48000),
    "C06": ({"broadcast": 1}, 48000),
    "C07": ({"broadcast": 1}, 48000),
    "C08": ({"broadcast": 1}, 48000),
    "C09": ({"broadcast": 1}, 48000),
    "C10": ({"broadcast": 1}, 48000),
    "C11": ({"anycast": 2, "broadcast": 2, "event": 2, "timer": 2, "pipeline": 2, "selecting": 2, "filewatcher": 2, "mixed": 1}, 48000),
    "C12": ({"anycast": 2, "broadcast": 2, "event": 2, "pipeline": 2, "filewatcher": 2, "mixed": 1}, 48000),
    "C13": ({"pipeline": 6, "mixed": 1}, 28000),
    "C14": ({"pipeline": 4, "mixed": 1}, 28000),
    "C15": ({"pipeline": 4, "mixed": 1}, 28000),
    "C16": ({"pipeline": 4, "mixed": 1}, 28000),
    "C17": ({"pipeline": 1}, 28000),
    "C18": ({"selecting": 1}, 24000),
    "C19": ({"selecting": 1}, 24000),
    "C20": ({"selecting": 1}, 24000),
    "C21": ({"selecting": 1}, 24000),
    "C22": ({"selecting": 1}, 24000),
    "C23": ({"selecting": 1}, 24000),
    "C24": ({"event": 6, "mixed": 1}, 48000),
    "C25": ({"timer": 6, "mixed": 1}, 48000),
    "C26": ({"timer": 1}, 48000),
    "C27": ({"timer": 1}, 48000),
    "C28": ({"timer": 1}, 48000),
    "C29": ({"timer": 1}, 48000),
    "C30": ({"timer": 1}, 48000),
    "C31": ({"filewatcher": 6, "mixed": 1}, 24000),
    "C32": ({"filewatcher": 6, "mixed": 1}, 24000),
    "C33": ({"anycast": 2, "broadcast": 2, "event": 2, "timer": 2, "pipeline": 2, "selecting": 2, "filewatcher": 2, "mixed": 1}, 24000),
    "C34": ({"pipeline": 6, "selecting": 3, "mixed": 1}, 28000),
    "C35": ({"pipeline": 3, "mixed": 1}, 28000),
    "C36": ({"anycast": 2, "broadcast": 2, "event": 2, "timer": 2, "pipeline": 2, "selecting": 2, "filewatcher": 2, "mixed": 1}, 48000),
    "C37": ({"anycast": 1, "broadcast": 1, "pipeline": 1, "selecting": 1}, 24000),
    "C38": ({"churn": 1}, 1200),
    "C39": ({"anycast": 1, "broadcast": 1, "event": 1, "timer": 1, "pipeline": 2, "selecting": 2, "filewatcher": 1, "mixed": 1}, 32000),
    "C40": ({"anycast": 1, "broadcast": 1}, 24000),
}


def make_plan(rng, prop: str, tier: str) -> dict:
    fams, _n = PROPS[prop]
    names = sorted(f for f in fams if f in FAMILIES)
    fam = rng.choices(names, [fams[f] for f in names])[0]
    plan = GENERATORS[fam](rng, prop, tier)
    if prop == "C33":
        plan["look"] = True
        for a in plan["actors"]:
            for op in list(a["ops"]):
                if op[0] == "select":
                    for body in op[2]["body"]:
                        if rng.random() < 0.5:
                            body.insert(rng.randrange(len(body) + 1), ["look"])
            for _ in range(rng.choice([0, 1, 2, 4])):
                a["ops"].insert(rng.randrange(len(a["ops"]) + 1), ["look"])
    if prop == "C39":
        plan["shutdown"] = {"at": rng.randrange(1, rng.choice([12, 60, 60, 300])), "how": rng.choice(["cancel", "cancel", "abrupt"])}
        if rng.random() < 0.4 and (fam in ("anycast", "broadcast", "event", "filewatcher", "timer")
                                   or fam == "pipeline" and '"merge"' not in json.dumps(plan["cfg"])):
            plan["early"] = True
            if fam == "timer":
                for spec in plan["cfg"]["timers"]:
                    spec["loop"] = True  # timers need one to be created
        if rng.random() < 0.15:
            plan["again"] = True
    assert plan["family"] == fam
    return plan

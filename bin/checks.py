"""What each check runs."""
def rnd(q, t, **k):
    return dict({"module": "GenExpr", "n": (q, t), "shards": 4}, **k)
def enum(q, t, **k):
    return dict({"module": "EnumExpr", "n": (q, t), "enum": True}, **k)
def rule(q, t, **k):
    return dict({"module": "GenRule", "n": (q, t), "shards": 4}, **k)
def text(mode, q, t, **k):
    return dict({"module": "GenText", "tag": mode, "env": {"MODE": mode}, "n": (q, t), "shards": 1 if mode == "deep" else 4}, **k)
def enumt(q, t, **k):
    return dict({"module": "EnumText", "n": (q, t), "enum": True}, **k)
def reg(mode, q, t, **k):
    return dict({"module": "GenReg", "tag": mode, "env": {"MODE": mode}, "n": (q, t), "shards": 4}, **k)
def calc(q, t, **k):
    return dict({"module": "GenCalc", "n": (q, t), "shards": 4}, **k)
CHECKS = {
    "E01": {"gens": [rnd(4000, 60000), enum(2, 3)]},
    "E02": {"gens": [rnd(4000, 60000), enum(2, 3)]},
    "E03": {"gens": [rnd(4000, 60000), enum(2, 3)]},
    "E04": {"gens": [rnd(4000, 60000), enum(2, 3)]},
    "P01": {"gens": [text("write", 4000, 60000), enumt(4, 5)]},
    "P02": {"gens": [text("soup", 3000, 60000), text("deep", 1, 1), enumt(4, 5)]},
    "D01": {"gens": [rnd(3200, 60000), enum(2, 3)]},
    "D02": {"gens": [rnd(2400, 40000), enum(2, 3)]},
    "F01": {"gens": [rnd(3600, 60000), enum(2, 3)]},
    "M01": {"gens": [rule(8000, 100000), rnd(6000, 60000), enum(2, 3)]},
    "M02": {"gens": [rule(8000, 100000), rnd(6000, 60000), enum(2, 3)]},
    "V01": {"gens": [rnd(4000, 60000), enum(2, 3)]},
    "V02": {"gens": [rnd(2400, 40000), enum(2, 3)]},
    "S01": {"gens": [reg("seq", 6000, 60000)]},
    "S02": {"gens": [reg("par", 6000, 60000)]},
    "S03": {"gens": [reg("ctx", 6000, 60000)]},
    "F02": {"gens": [calc(1200, 30000)]},
    "F03": {"gens": [calc(2000, 30000)]},
    "F04": {"gens": [calc(2000, 30000)]},
    "M03": {"gens": [calc(2000, 30000)]},
    "V03": {"gens": [calc(3000, 40000)]},
    "V04": {"gens": [calc(3000, 40000)]},
    "U01": {"gens": [calc(1500, 30000)]},
    "U02": {"gens": [calc(3000, 40000)]},
    "N01": {"gens": [calc(3000, 40000)]},
    "N02": {"gens": [{"module": "GenNum", "n": (1, 1)}]},
}
PENDING = {}

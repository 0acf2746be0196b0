"""P03 table settings survive reading and writing, field by field (spec: Records.tla)."""
from lib.recgen import schema
from suites.p02 import gen_cases, validate, MC


def run(c):
    S = schema("GameDataSchema.json")
    c.tlc("RecordsMC", MC.format(n=c.n(3, 4), e="FALSE"), name="RecordsMC", coverage=True)
    cases = gen_cases(c, S, kinds=("GameData",), per_tag=c.n(10, 80), fulls=c.n(300, 4000))
    res = c.harness("gamedata", cases)
    validate(c, cases, res, "GameDataSchema.json", None, name="gamedata")
    cases = gen_cases(c, S, kinds=("Collection",), per_tag=c.n(20, 100), fulls=c.n(40, 400))
    res = c.harness("collection", cases)
    validate(c, cases, res, "GameDataSchema.json", None, name="collection")
    c.notes["fields"] = sum(len(s["f"]) for s in S.values() if isinstance(s, dict))
    for k in cases[:400:80]:
        c.sample({"stored": [r["t"] for r in k["recs"]][:12]})
    c.assumptions += ["field tables in spec/GameDataSchema.json define what the settings store",
                      "the material count precedes the material tables it counts, as the format requires"]

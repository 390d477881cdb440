"""What each check runs."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = ["C%02d" % i for i in range(1, 22)]
# properties that known finding K1 (see known-findings.txt) breaks
K1 = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C10", "C11", "C13", "C14", "C15", "C16",
      "C17", "C18", "C21"}
BUDGET = {"quick": 60, "thorough": 700}      # seconds
ROUNDS = {"quick": 1, "thorough": 40}
SHARDS = 8
SCALE = {"quick": 2.0, "thorough": 4.0}
SCALES = {}
# lenses that compare values: one that is not even of the right shape is wrong there
SHAPES = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C10", "C11", "C12", "C13", "C14", "C16", "C17", "C18"}
HARNESS_OPTIONS = {"C21": ["--events"]}     # what else to record


def trace_jobs(prop, tier, seed, work):
    scale = SCALES.get(prop, {}).get(tier, SCALE[tier])
    return [["run", "--prop", prop, "--seed", str(seed), "--scale", str(scale), "--shard", f"{i}/{SHARDS}"]
            for i in range(SHARDS)]


# Behaviours of the specification that TLC samples and the harness replays:
# (module, properties, behaviours per shard in quick)
WORLD = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C13", "C14", "C15", "C17", "C18",
         "C19", "C20", "C21"}
CALLS = {"C06", "C08", "C09", "C14", "C15", "C16", "C21"}
GROUP = {"C11", "C08"}
GENERATORS = [("MCWorld", WORLD, 60), ("MCCalls", CALLS, 200), ("MCGroup", GROUP, 150),
              ("MCAttr", {"C12", "C13", "C08"}, 100)]


def generators(prop, tier):
    k = {"quick": 1, "thorough": 4}[tier]
    return [dict(module=m + ".tla", cfg=m + ".cfg", count=n * k) for m, ps, n in GENERATORS if prop in ps]


# exhaustive instances of the specification, checked in the thorough tier
MODELS = [
    dict(module="MCStream.tla", cfg="MCStream0.cfg", props={"C02", "C03", "C04", "C05"}),
    dict(module="MCStream.tla", cfg="MCStream1.cfg", props={"C01", "C07", "C17", "C18"}),
    dict(module="MCStream.tla", cfg="MCStream2.cfg", props={"C01", "C10"}),
    dict(module="MCStream.tla", cfg="MCFault.cfg", props={"C14"}),
    dict(module="MCCalls.tla", cfg="MCCallsX.cfg", props={"C06", "C16", "C21"}),
    dict(module="MCReader.tla", cfg="MCReader.cfg", props={"C21", "C06", "C08", "C09"}),
    dict(module="MCGroup.tla", cfg="MCGroupX.cfg", props={"C11"}),
    dict(module="MCAttr.tla", cfg="MCAttrX.cfg", props={"C12", "C13"}, quick=True),
    dict(module="MCAttr.tla", cfg="MCAttrY.cfg", props={"C12", "C13"}),
]


def models(prop, tier):
    return [m for m in MODELS if prop in m["props"] and (tier == "thorough" or m.get("quick"))]


def known_findings(v):
    """known-findings.txt: 'known: property=<ids> <what fails>' and 'fixed: ...' lines."""
    out = {}
    for l in open(os.path.join(v, "known-findings.txt")):
        if l.startswith("known: "):
            _, p, what = l.strip().split(" ", 2)
            for x in p.removeprefix("property=").split(","):
                out.setdefault(x, []).append(what)
    return out


def assumptions(prop):
    return ["the specification in spec/ states the kernel wire format and the crate's documented interface",
            "the harness's projection of decoded values (harness/src/proj.rs) calls the public accessors faithfully",
            "little-endian 64-bit host; debug build with overflow checks"]


# what of each call the trace validation of a property compares (PerfTrace!Lenses)
ABOUT = {
    "C01": "outcome, value and position of every record of streams",
    "C02": "handler, metadata and record for every type number",
    "C03": "values of every non-sample record",
    "C04": "values of samples over configurations",
    "C05": "metadata, trailer length and body",
    "C06": "same calls over different deliveries compared with a reference delivery",
    "C07": "same data in both byte orders compared",
    "C08": "every call answers, over adversarial inputs",
    "C09": "allocation of every call against the bytes supplied",
    "C10": "truncated and extended records compared with the whole",
    "C11": "counter reads, groups and iterator scripts",
    "C12": "attribute structures of every size",
    "C13": "configurations built from attributes and what they decode to",
    "C14": "sources that fail at every offset",
    "C15": "addresses of borrowed data and stability of copies",
    "C16": "sequences of primitive reads against one cursor",
    "C17": "frames and sub-parsers against built-in parsing",
    "C18": "accessors of packed words, bit by bit",
    "C19": "clones, owned copies and conversions",
    "C20": "debug trees and error text",
    "C21": "the source's log of requests and advances",
}

"""How sharp are the laws of the models?  Mutates the specification (one
token at a time: comparisons, connectives, operators, numbers) and runs the
models on each mutant; prints which law notices it.  Not a check: a tool to
look for laws that are missing.

    python3 tools/specmut.py NUMBER SEED [MODULE...]
"""
import os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SWAP = {"<=": "<", ">=": ">", "<": "<=", ">": ">=", "+": "-", "-": "+", "=": "#", "#": "=", "/\\": "\\/", "\\/": "/\\",
        "\\div": "%", "%": "\\div", "TRUE": "FALSE", "FALSE": "TRUE", "SecLT": "SecLE", "SecLE": "SecLT", "SpanLT": "SpanLE",
        "SpanLE": "SpanLT", "MinOf": "MaxOf", "MaxOf": "MinOf", "Min2": "Max2", "Max2": "Min2", "SpanAdd": "SpanSub",
        "SpanSub": "SpanAdd", "BAdd": "BSub", "BSub": "BAdd", "\\in": "\\notin", "\\notin": "\\in"}
MODELS = {
    "Exact": ["MC_Numbers", "MC_Round", "MC_Calendar", "MC_Text"],
    "Calendar": ["MC_Calendar", "MC_Zone", "MC_Ops"],
    "Zone": ["MC_Zone", "MC_Ops"],
    "Values": ["MC_Zone", "MC_Ops", "MC_Text"],
    "Delta": ["MC_Numbers", "MC_Text", "MC_Ops"],
    "Round": ["MC_Round", "MC_Ops"],
    "Text": ["MC_Text"],
    "Ops": ["MC_Ops", "MC_Zone", "MC_Text", "MC_Heap"],
    "Whenever": ["MC_Clock", "MC_Heap", "MC_Ops"],
}
TOKEN = re.compile(r"\\\*[^\n]*|\(\*.*?\*\)|\"[^\"]*\"|<<|>>|->|<=>|=>|==|<=|>=|/\\|\\/|\\[a-zA-Z]+|[A-Za-z_][A-Za-z0-9_']*|\d+|[<>=#+\-%]", re.S)


def mutants(module):
    text = open(HERE + "/spec/%s.tla" % module).read()
    for m in TOKEN.finditer(text):
        t = m.group()
        line = text[text.rfind("\n", 0, m.start()) + 1: text.find("\n", m.end())]
        if re.match(r"^[-=]{4}|^RECURSIVE|^EXTENDS|^VARIABLES|^ *\[\] name|^c[A-Z]+ ==", line):
            continue
        new = SWAP.get(t) or (str(int(t) + 1) if t.isdigit() else None)
        if t == "-" and text[m.end()] in "-" or t == "=" and "=" in text[m.start() - 1:m.end() + 1].replace("=", "", 1):
            continue
        if new:
            yield module, m.start(), t, new, line.strip()


def run(mut):
    module, at, old, new, line = mut
    with tempfile.TemporaryDirectory(prefix="specmut") as d:
        shutil.copytree(HERE + "/spec", d + "/spec")
        p = d + "/spec/%s.tla" % module
        text = open(p).read()
        open(p, "w").write(text[:at] + new + text[at + len(old):])
        for model in MODELS[module]:
            env = dict(os.environ, WHENEVER_ZONES=d + "/spec/models/zones.json", TZ="UTC")
            try:
                out = subprocess.run(["java", "-XX:+UseSerialGC", "-Xmx2g", "-Xss16m", "-cp", JAR, "tlc2.TLC", "-workers", "1", "-noGenerateSpecTE",
                                      "-metadir", d + "/md", "-config", "models/%s.cfg" % model, model + ".tla"],
                                     cwd=d + "/spec", env=env, capture_output=True, text=True, timeout=240).stdout
            except subprocess.TimeoutExpired:
                return mut, "timeout " + model
            m = re.search(r"(Invariant|property|Action property|Temporal properties) ?(\S*) ?(is|was|were) violated", out)
            if m:
                return mut, "%s.%s" % (model, m.group(2))
            if "Parsing or semantic analysis failed" in out or "Parse Error" in out:
                return mut, "invalid"
            if "No error has been found" not in out:
                return mut, "%s: error in evaluation" % model
    return mut, None


if __name__ == "__main__":
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    rng = random.Random(seed)
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
        for module in sys.argv[3:] or sorted(MODELS):
            ms = list(mutants(module))
            got = list(ex.map(run, rng.sample(ms, min(n, len(ms)))))
            real = [g for g in got if g[1] != "invalid"]
            print("== %s: %d of %d noticed" % (module, sum(1 for g in real if g[1]), len(real)), flush=True)
            for (mod, at, old, new, line), r in got:
                print("  %-34s %s -> %s in: %s" % (r or "SURVIVED", old, new, line), flush=True)

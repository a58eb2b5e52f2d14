#!/usr/bin/env python
"""W01: random folders of TALP records, read by the talp command (ci-report and metadata); the pages it writes are compared
with an independent reading of the records.  pages.py REPO SEED NCASES"""
import html.parser, json, math, os, random, re, shutil, sys, tempfile, traceback, urllib.request

sys.dont_write_bytecode = True
REPO, SEED, N = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
sys.path.insert(0, os.path.join(REPO, "talp-pages"))

# the badges come from a web server: its stand-in answers with the address asked for
class Answer:
    def __init__(self, req):
        self.url = req if isinstance(req, str) else req.full_url
    def read(self):
        return ("<svg>%s</svg>" % self.url).encode()
    def __enter__(self):
        return self
    def __exit__(self, *a):
        pass
urllib.request.urlopen = lambda req, *a, **k: Answer(req)
# the drawing library is several MB in each page
import plotly.io._html as _ph
if hasattr(_ph, "get_plotlyjs"):
    _ph.get_plotlyjs = lambda: ""
import talp_pages.talp as cli

stats = {}
def stat(k, n=1): stats[k] = stats.get(k, 0) + n
def out(s):
    os.write(1, (s.replace("\n", "|")[:3500] + "\n").encode("utf-8", "replace"))
seen_viol = set()
def viol(key, text):
    if key not in seen_viol:
        seen_viol.add(key)
        out("VIOL W01/%s %s" % (key, text))


def talp(args, env=None):
    """one run of the command in a child; (exit status, output)"""
    f = tempfile.TemporaryFile()
    pid = os.fork()
    if pid == 0:
        st = 1
        try:
            os.dup2(f.fileno(), 1); os.dup2(f.fileno(), 2)
            for k in list(os.environ):
                if k.startswith(("CI_", "GITHUB_")):
                    del os.environ[k]
            os.environ.update(env or {})
            sys.argv = ["talp"] + args
            cli.main()
            st = 0
        except SystemExit as e:
            st = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except BaseException:
            traceback.print_exc()
            st = 1
        finally:
            sys.stdout.flush(); sys.stderr.flush()
            os._exit(st)
    _, st = os.waitpid(pid, 0)
    f.seek(0)
    o = f.read().decode("utf-8", "replace")
    f.close()
    stat("runs")
    return (os.waitstatus_to_exitcode(st), o)


# ---- records --------------------------------------------------------------------------------------------------------
EFF = ["parallelEfficiency", "mpiParallelEfficiency", "mpiCommunicationEfficiency", "mpiLoadBalance", "mpiLoadBalanceIn",
       "mpiLoadBalanceOut", "ompParallelEfficiency", "ompLoadBalance", "ompSchedulingEfficiency", "ompSerializationEfficiency"]
REGIONS = ["Global", "MPI Execution", "solver", "Init phase", "I/O", "matrix-mult", "r1", "r2", "región", "x_y.z", "a b  c"]
HOSTILE = ["a<b>c", "p & q", "it's \"q\"", "</script>", "<i>x</i>"]
MONTH = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def stamp(r):
    m = r.randrange(12)
    return "%04d-%02d-%02dT%02d:%02d:%02d" % (r.choice([2023, 2024, 2024, 2025]), m + 1, r.randint(1, MONTH[m]), r.randrange(24), r.randrange(60), r.randrange(60))


def label(cpus, ranks):
    if cpus == 1:
        return "Serial"
    if ranks == 0:
        return "%dxOpenMP" % cpus
    if ranks == cpus:
        return "%dxMPI" % cpus
    return "%dxMPI %dxOpenMP" % (ranks, cpus // ranks)


def region_record(r, cpus, ranks, papi, total=None):
    el = int(10 ** r.uniform(6, 12))
    useful = max(1, int(el * cpus * r.uniform(0.05, 1)))
    d = {"numCpus": cpus, "numMpiRanks": ranks, "numNodes": 1, "avgCpus": float(cpus)}
    if papi == "on":
        d["cycles"] = float(int(useful * r.uniform(0.3, 4)) + 1)
        d["instructions"] = float(int(d["cycles"] * r.uniform(0.05, 5)) + 1)
    elif papi == "off":
        d["cycles"] = d["instructions"] = 0.0
    else:
        d["cycles"], d["instructions"] = -float(r.randint(1, 10**9)), -float(r.randint(1, 10**9))
    d.update(numMpiCalls=r.randint(0, 1000), elapsedTime=el, usefulTime=useful, mpiTime=int(useful * r.random()), ompLoadImbalanceTime=0,
             ompSchedulingTime=0, ompSerializationTime=0)
    for e in EFF:
        d[e] = round(r.uniform(0.01, 1), r.choice([2, 4, 12]))
    return d


class Run:
    pass


def make_run(r, cpus, ranks, regions, papi, ts, meta):
    n = Run()
    n.cpus, n.ranks, n.label = cpus, ranks, label(cpus, ranks)
    n.runts, n.meta = ts, meta
    n.ts = meta["gitTimestamp"] if meta and "gitTimestamp" in meta else ts
    n.commit = meta["gitCommit"][:7] if meta else ""
    n.regions = {}
    for g in regions:
        rc = cpus if g == "Global" or r.random() < 0.7 else r.randint(1, cpus)
        n.regions[g] = region_record(r, rc, ranks, papi)
    n.json = {"dlbVersion": r.choice(["3.5", "3.5.0", "3.5.1", "3.5a", "3.5.0-rc1+2-c7ec"]), "dlbGitVersion": "v3.5", "timestamp": ts,
              "resources": {"numCpus": cpus, "numNodes": 1, "numMpiRanks": ranks}, "Application": n.regions}
    if meta is not None:
        n.json["metadata"] = meta
    return n


def commit(r): return "%040x" % r.getrandbits(160)


def make_tree(r, root, hostile=False):
    """{relative path: [runs]}"""
    names = ["mesh_1", "mesh_2", "weak_scaling", "strong_scaling", "comparison_of_rc", "a", "b.c", "case-3", "with space", "x=1", "12", "json", "été"]
    tree = {}
    for _ in range(r.choice([1, 1, 2, 3, 4])):
        p = os.path.join(*[r.choice(names) for _ in range(r.choice([1, 2, 2, 3]))])
        tree.setdefault(p, [])
    allregions = r.sample(REGIONS[1:], r.randint(0, 5)) + (r.sample(HOSTILE, r.randint(1, 2)) if hostile else [])
    for p in tree:
        kind = r.choice(["mpi", "omp", "hybrid", "mix", "serial"])
        shapes = set()
        for _ in range(r.choice([1, 2, 3, 4])):
            k = r.choice(["mpi", "omp", "hybrid", "serial"]) if kind == "mix" else kind
            if k == "mpi": n = r.choice([2, 4, 8, 16, 112]); shapes.add((n, n))
            elif k == "omp": shapes.add((r.choice([2, 4, 7, 8, 48]), 0))
            elif k == "serial": shapes.add((1, r.choice([0, 1])))
            else: m = r.choice([1, 2, 4, 8, 28]); shapes.add((m * r.choice([2, 3, 4, 14]), m))
        papi = r.choice(["on", "on", "on", "off", "neg", "some"])
        git = r.choice(["no", "no", "all", "some", "nots"])
        used, stamps = {}, {}
        same = [stamp(r), commit(r)]
        have = [g for g in allregions if r.random() < 0.8]
        for (cpus, ranks) in sorted(shapes):
            for _ in range(r.choice([1, 1, 2, 3, 5])):
                lab = label(cpus, ranks)
                while True:
                    ts = stamp(r)
                    meta = None
                    if git == "all" or git == "nots" or (git == "some" and r.random() < 0.5):
                        meta = {"gitCommit": commit(r), "gitBranch": r.choice(["main", "feature/x", "dev"]), "gitTimestamp": stamp(r), "defaultGitBranch": "main", "isMergeRequest": r.random() < 0.5}
                        if r.random() < 0.3:
                            meta["gitTimestamp"], meta["gitCommit"] = same
                        if git == "nots":
                            del meta["gitTimestamp"]
                    eff = meta["gitTimestamp"] if meta and "gitTimestamp" in meta else ts
                    if eff not in used.setdefault(lab, set()):
                        used[lab].add(eff)
                        break
                regs = ["Global"] + [g for g in have if r.random() < 0.85]
                if r.random() < 0.4:
                    r.shuffle(regs)
                tree[p].append(make_run(r, cpus, ranks, regs, papi if papi != "some" else r.choice(["on", "off"]), ts, meta))
        files = []
        for i, n in enumerate(tree[p]):
            n.file = "talp_%dx%d_%d.json" % (n.ranks, n.cpus, i) if r.random() < 0.6 else "%s%d.json" % (r.choice(["run", "z", "A", "talp 1 ", "."]), i)
            files.append(n)
        d = os.path.join(root, p)
        os.makedirs(d, exist_ok=True)
        r.shuffle(files)
        for n in files:
            with open(os.path.join(d, n.file), "w") as f:
                json.dump(n.json, f, indent=r.choice([None, 2]), ensure_ascii=r.random() < 0.5)
        if r.random() < 0.3:
            open(os.path.join(d, r.choice(["notes.txt", "talp.csv", "json", "x.json.bak", "out.xml"])), "w").write("{ no json")
    if r.random() < 0.2:
        os.makedirs(os.path.join(root, "empty", "deep"), exist_ok=True)
    if r.random() < 0.2:     # at the top level: belongs to no experiment
        with open(os.path.join(root, "top.json"), "w") as f:
            json.dump(make_run(r, 4, 4, ["Global"], "on", stamp(r), None).json, f)
    return tree


# ---- pages ----------------------------------------------------------------------------------------------------------
class Page(html.parser.HTMLParser):
    """events: (tag, attributes, text)"""
    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.ev, self.stack = [], []
        self.feed(text)
        self.close()
    def handle_starttag(self, tag, attrs):
        self.ev.append([tag, dict(attrs), ""])
        if tag not in ("meta", "link", "br", "hr", "img", "input"):
            self.stack.append(len(self.ev) - 1)
    def handle_endtag(self, tag):
        for i in range(len(self.stack) - 1, -1, -1):
            if self.ev[self.stack[i]][0] == tag:
                del self.stack[i:]
                break
    def handle_data(self, data):
        for i in self.stack:
            self.ev[i][2] += data


def figure(script):
    m = None
    for m in re.finditer(r"Plotly\.newPlot\(\s*\"[^\"]*\",\s*", script):
        pass
    if not m:
        return None
    dec = json.JSONDecoder()
    data, e = dec.raw_decode(script, m.end())
    m2 = re.compile(r"\s*,\s*").match(script, e)
    layout, _ = dec.raw_decode(script, m2.end())
    return data, layout


def norm(name): return re.sub(r"[^a-z\[\]#]", "", re.sub("<[^>]*>", "", name).lower().replace("effiency", "efficiency"))
NAMES = {norm(v): k for k, v in {
    "globalEfficiency": "Global Efficiency", "globalEfficiencyBySpeedup": "Global Efficiency from Speedup",
    "parallelEfficiency": "Parallel efficiency", "computationScalability": "Computation Scalability",
    "instructions": "Useful Instructions", "IPC": "Useful IPC", "frequency": "Frequency [GHz]",
    "mpiParallelEfficiency": "MPI Parallel efficiency", "mpiCommunicationEfficiency": "MPI Communication efficiency",
    "mpiLoadBalance": "MPI Load balance", "mpiLoadBalanceIn": "MPI In-node load balance", "mpiLoadBalanceOut": "MPI Inter-node load balance",
    "ompParallelEfficiency": "OpenMP Parallel efficiency", "ompLoadBalance": "OpenMP Load balance",
    "ompSchedulingEfficiency": "OpenMP Scheduling efficiency", "ompSerializationEfficiency": "OpenMP Serialization efficiency",
    "instructionScaling": "Instructions scaling", "ipcScaling": "IPC scaling", "frequencyScaling": "Frequency scaling",
    "elapsedTime": "Elapsed time [s]", "speedup": "Speedup"}.items()}
MPI = [e for e in EFF if e.startswith("mpi")]
OMP = [e for e in EFF if e.startswith("omp")]


def div(a, b):
    if b == 0:
        return math.nan if a == 0 or math.isnan(a) else math.copysign(math.inf, a)
    return a / b


def value(rec, m):
    ins, cyc = max(rec["instructions"], 0), max(rec["cycles"], 0)
    if m == "instructions": return ins
    if m == "IPC": return div(ins, cyc)
    if m == "frequency": return div(cyc, rec["usefulTime"])
    if m == "elapsedTime": return rec["elapsedTime"] * 1e-9
    return rec[m]


def same(got, exp, rounding=0.0):
    if exp is None or math.isnan(exp) or math.isinf(exp):
        return got is None or (isinstance(got, float) and not math.isfinite(got))
    return isinstance(got, (int, float)) and abs(got - exp) <= rounding + 1e-9 * max(1, abs(exp))


def tsof(t):
    m = re.search(r"(\d{4}-\d\d-\d\d)[T ](\d\d:\d\d:\d\d)", str(t))
    return m.group(1) + "T" + m.group(2) if m else None


def check_evolution(where, path, lab, runs, selected):
    pg = Page(open(path, encoding="utf-8").read())
    figs = [f for f in (figure(e[2]) for e in pg.ev if e[0] == "script") if f]
    if len(figs) != 1:
        return viol("evolution-figure", "%s has %d figures" % (where, len(figs)))
    data, layout = figs[0]
    titles = [norm(a["text"]) for a in layout.get("annotations", [])]
    got = {}
    for t in data:
        ax = t.get("yaxis", "y")[1:]
        k = int(ax) - 1 if ax else 0
        m = NAMES.get(titles[k]) if k < len(titles) else None
        if m is None:
            continue
        if (m, t["name"]) in got:
            viol("evolution-twice", "%s draws %s of %s twice" % (where, m, t["name"]))
        got[(m, t["name"])] = t
    mode = runs[0].label
    need = ["elapsedTime", "IPC", "instructions", "frequency"]
    if mode != "Serial": need.append("parallelEfficiency")
    if "MPI" in mode: need += ["mpiParallelEfficiency", "mpiCommunicationEfficiency", "mpiLoadBalance"]
    if "OpenMP" in mode: need += ["ompParallelEfficiency", "ompSchedulingEfficiency", "ompLoadBalance", "ompSerializationEfficiency"]
    regions = {g for n in runs for g in n.regions}
    for (m, g) in got:
        if g not in regions:
            viol("evolution-region", "%s shows %s, a region of no run" % (where, g))
    for m in need:
        for g in regions:
            t = got.get((m, g))
            if t is None:
                viol("evolution-missing", "%s does not show %s of %s" % (where, m, g))
                continue
            exp = sorted(((n.ts, value(n.regions[g], m), n) for n in runs if g in n.regions), key=lambda z: z[0])
            x, y = [tsof(v) for v in t.get("x", [])], t.get("y", [])
            pts = list(zip(x, y))
            if len(x) != len(y) or len(x) != len(exp):
                viol("evolution-runs", "%s, %s of %s: %d points for %d runs" % (where, m, g, len(x), len(exp)))
                continue
            if x != sorted(x) and x != sorted(x, reverse=True):
                viol("evolution-order", "%s, %s of %s: the runs are not in order of time: %s" % (where, m, g, x))
            for (tx, ty), (ex, ey, n) in zip(sorted(pts, key=lambda z: z[0]), exp):
                if tx != ex or not same(ty, ey):
                    viol("evolution-value", "%s, %s of %s: %s at %s, the record says %s at %s" % (where, m, g, ty, tx, ey, ex))
            txt = t.get("text")
            if txt is not None:
                for tx, tt in zip(x, txt):
                    n = [z[2] for z in exp if z[0] == tx]
                    if n and json.loads(tt) != (n[0].meta or {}):
                        viol("evolution-metadata", "%s, run at %s: metadata %s" % (where, tx, tt))
            if (t.get("visible", True) is True) != (g in selected):
                viol("evolution-highlight", "%s: %s visible=%s with highlighted regions %s" % (where, g, t.get("visible", True), sorted(selected)))
            stat("points", len(exp))


def check_scaling(where, path, runs, selected, folder_files):
    pg = Page(open(path, encoding="utf-8").read())
    cur, secs = None, {}
    for tag, at, text in pg.ev:
        if tag == "h3" and "Region" in text:
            cur = text.split(":", 1)[1].strip() if ":" in text else text
            if cur in secs:
                viol("scaling-twice", "%s shows region %s twice" % (where, cur))
            secs[cur] = {"fig": None, "rows": []}
        elif cur is not None and tag == "script":
            f = figure(text)
            if f:
                if secs[cur]["fig"]:
                    viol("scaling-figures", "%s: two tables for %s" % (where, cur))
                secs[cur]["fig"] = f
        elif cur is not None and tag == "tr":
            secs[cur]["rows"].append([])
        elif cur is not None and tag in ("td", "th") and secs[cur]["rows"]:
            secs[cur]["rows"][-1].append(text.strip())
    have = [g for g in selected if any(g in n.regions for n in runs)]
    if {norm2(g) for g in secs} != {norm2(g) for g in have}:
        viol("scaling-regions", "%s shows the regions %s, selected and recorded: %s" % (where, sorted(secs), sorted(have)))
        return
    for g in have:
        sec = [v for k, v in secs.items() if norm2(k) == norm2(g)][0]
        newest = {}
        for n in runs:
            if g in n.regions and (n.label not in newest or n.ts > newest[n.label].ts):
                newest[n.label] = n
        if not sec["fig"]:
            viol("scaling-table", "%s: no table for %s" % (where, g))
            continue
        table = [d for d in sec["fig"][0] if d.get("type") == "table"][0]
        head = [re.sub("<[^>]*>", "", h) for h in table["header"]["values"]][1:]
        if sorted(head) != sorted(newest):
            viol("scaling-columns", "%s, %s: columns %s, the runs are of %s" % (where, g, head, sorted(newest)))
            continue
        cp = [newest[h].cpus for h in head]
        if cp != sorted(cp):
            viol("scaling-order", "%s, %s: columns %s are not in order of CPUs" % (where, g, head))
        cells = table["cells"]["values"]
        rows = [NAMES.get(norm(x)) for x in cells[0]]
        ref = newest[head[0]].regions[g]
        refi = value(ref, "instructions")
        strong, margin = False, 1.0
        if refi > 0:
            for h in head:
                d = newest[h].regions[g]
                q = (value(d, "instructions") / refi) / (d["numCpus"] / ref["numCpus"])
                margin = min(margin, abs(q - 0.75))
                strong = strong or q < 0.75
        if margin < 1e-6:
            stat("skipped_ambiguous_scaling")
            continue
        labs = [newest[h].label for h in head]
        hyb = any("MPI " in l for l in labs)
        mpi = any(re.fullmatch(r"\d+xMPI", l) for l in labs)
        omp = any(re.fullmatch(r"\d+xOpenMP", l) for l in labs)
        need = ["globalEfficiency", "computationScalability", "instructionScaling", "ipcScaling", "frequencyScaling", "IPC", "frequency", "elapsedTime"]
        if hyb or mpi or omp: need.append("parallelEfficiency")
        if hyb or mpi: need += MPI
        if hyb or (omp and not mpi): need += OMP
        for m in need:
            if m not in rows:
                viol("scaling-metric", "%s, %s: %s is not shown for %s" % (where, g, m, labs))
        for h, col in zip(head, cells[1:]):
            d = newest[h].regions[g]
            ins, ipc, fr = (value(d, k) for k in ("instructions", "IPC", "frequency"))
            ipc = math.inf if math.isnan(ipc) else ipc
            ripc = value(ref, "IPC")
            ripc = math.inf if math.isnan(ripc) else ripc
            isc = div(refi, ins) if strong else (refi / ref["numCpus"]) * div(1, div(ins, d["numCpus"]))
            psc, fsc = div(ipc, ripc) if not (math.isinf(ipc) and math.isinf(ripc)) else math.nan, div(fr, value(ref, "frequency"))
            isc, psc = (math.inf if (math.isnan(v) or v == 0) else v for v in (isc, psc))
            fsc = math.inf if math.isnan(fsc) else fsc
            cs = isc * psc * fsc
            sp = ref["elapsedTime"] / d["elapsedTime"]
            exp = {"IPC": ipc, "frequency": fr, "elapsedTime": value(d, "elapsedTime"), "instructionScaling": isc, "ipcScaling": psc, "frequencyScaling": fsc,
                   "computationScalability": cs, "globalEfficiency": d["parallelEfficiency"] * cs, "speedup": sp,
                   "globalEfficiencyBySpeedup": sp / (d["numCpus"] / ref["numCpus"])}
            for e in EFF:
                exp[e] = d[e]
            for m, v in zip(rows, col):
                if m in exp and not same(v, exp[m], 0.0051):
                    viol("scaling-value", "%s, %s, %s: %s is %s, the record gives %s (%s, reference %s)" % (where, g, h, m, v, exp[m], "strong" if strong else "weak", head[0]))
                stat("cells")
        raw = [x for x in sec["rows"] if x and x[0] in newest]
        if sorted(x[0] for x in raw) != sorted(newest):
            viol("scaling-raw-rows", "%s, %s: rows %s" % (where, g, [x[:1] for x in raw]))
        for x in raw:
            n = newest[x[0]]
            if len(x) < 4 or not x[1].endswith(os.path.basename(n.file)) or tsof(x[2]) != n.ts or json.loads(x[3]) != (n.meta or {}):
                viol("scaling-raw", "%s, %s, %s: %s, the newest run is %s at %s" % (where, g, x[0], x, n.file, n.ts))
        text = " ".join(e[2] for e in pg.ev if e[0] == "p")
        if len(have) == 1 and ("Strong" in text) != strong and ("Strong" in text or "Weak" in text):
            viol("scaling-mode", "%s: the page says %s" % (where, "strong" if "Strong" in text else "weak"))
        stat("tables_strong" if strong else "tables_weak")


def norm2(s): return re.sub(r"\s+", " ", s).strip()


def check_report(outdir, tree, selected, badge, badge_region, what):
    exp = {"index.html"}
    labs = {}
    for p, runs in tree.items():
        labs[p] = sorted({n.label for n in runs})
        exp.add(os.path.join(p, "scaling.html"))
        for l in labs[p]:
            exp.add(os.path.join(p, "evolution_%s.html" % l.replace(" ", "_")))
            if badge:
                exp.add(os.path.join(p, "badge_%s.svg" % l.replace(" ", "_")))
    got = {os.path.relpath(os.path.join(d, f), outdir) for d, _, fs in os.walk(outdir) for f in fs}
    if got != exp:
        viol("files", "%s: missing %s, extra %s" % (what, sorted(exp - got)[:5], sorted(got - exp)[:5]))
    if "index.html" not in got:
        return
    # index
    pg = Page(open(os.path.join(outdir, "index.html"), encoding="utf-8").read())
    cards, cur = {}, None
    for tag, at, text in pg.ev:
        if tag == "h5" and "folder:" in text:
            cur = text.split("folder:", 1)[1].strip()
            if cur in cards:
                viol("index-twice", "%s: folder %s listed twice" % (what, cur))
            cards[cur] = {"links": [], "upd": ""}
        elif cur is not None and tag == "h6" and "updated" in text:
            cards[cur]["upd"] = text
        elif cur is not None and tag == "a" and at.get("href", "").count("/"):
            h = urllib.request.unquote(at["href"])
            if not h.startswith("http"):
                cards[cur]["links"].append((h, norm2(text)))
    if sorted(cards) != sorted(tree):
        viol("index-folders", "%s: index lists %s, the folders are %s" % (what, sorted(cards), sorted(tree)))
    for p, card in cards.items():
        if p not in tree:
            continue
        runs = tree[p]
        links = {l for l, _ in card["links"]}
        want = {e for e in exp if os.path.dirname(e) == p}
        if links != want:
            viol("index-links", "%s: %s links to %s instead of %s" % (what, p, sorted(links ^ want), sorted(want)))
        for l, t in card["links"]:
            m = re.search(r"(?:evolution|badge)_(.*)\.(?:html|svg)$", l)
            if m and m.group(1).replace("_", " ") != t:
                viol("index-link-text", "%s: %s is called %s" % (what, l, t))
        top = max(n.ts for n in runs)
        commits = {n.commit for n in runs if n.ts == top}
        u = card["upd"]
        gc = u.rsplit("@", 1)[-1].strip()
        if tsof(u) != top or gc not in commits:
            viol("index-latest", "%s: %s last updated %r, the newest run is of %s @%s" % (what, p, norm2(u)[:200], top, sorted(commits)))
        stat("folders")
    for p, runs in tree.items():
        w = "%s, %s" % (what, p)
        if os.path.join(p, "scaling.html") in got:
            check_scaling(w, os.path.join(outdir, p, "scaling.html"), runs, selected, None)
        for l in labs[p]:
            mine = [n for n in runs if n.label == l]
            f = os.path.join(p, "evolution_%s.html" % l.replace(" ", "_"))
            if f in got:
                check_evolution("%s, %s" % (w, l), os.path.join(outdir, f), l, mine, selected)
            f = os.path.join(p, "badge_%s.svg" % l.replace(" ", "_"))
            if badge and f in got:
                text = open(os.path.join(outdir, f)).read()
                m = re.search(r"efficiency-([0-9.]+)-(\w+)", text)
                cand = [n for n in mine if badge_region in n.regions]
                if cand:
                    v = max(cand, key=lambda n: n.ts).regions[badge_region]["parallelEfficiency"]
                    col = "red" if v < 0.6 else "orange" if v < 0.8 else "green"
                    if not m or abs(float(m.group(1)) - v) > 0.0051 or m.group(2) != col:
                        viol("badge", "%s, %s: badge %s for an efficiency of %s" % (w, l, text, v))
                    stat("badges")


# ---- cases ----------------------------------------------------------------------------------------------------------
def report_case(r, d, what, hostile=False):
    root, outdir = os.path.join(d, "in put" if r.random() < 0.2 else "in"), os.path.join(d, "out")
    os.makedirs(root)
    tree = make_tree(r, root, hostile)
    regions = sorted({g for t in tree.values() for n in t for g in n.regions} - {"Global"})
    badge = r.random() < 0.5
    selected, badge_region = {"Global"}, "Global"
    args = ["ci-report", "-i", root, "-o", outdir]
    if regions and r.random() < (1 if hostile else 0.6):
        s = r.sample(regions, r.randint(1, min(3, len(regions))))
        if hostile:
            s = sorted(set(s) | set(g for g in regions if g in HOSTILE))
        if r.random() < 0.15:
            s.append("nowhere")
            stat("selected_unknown")
        selected |= set(s)
        args += ["--regions"] + s
    if any(not any(g in n.regions for n in t) for g in selected for t in tree.values()):
        stat("selected_not_everywhere")
    if not badge:
        args += ["--no-badge"]
    elif r.random() < 0.3 and regions:
        badge_region = r.choice(regions)
        args += ["--region-for-badge", badge_region]
        if not all(any(badge_region in n.regions for n in t if n.label == l) for t in tree.values() for l in {n.label for n in t}):
            stat("badge_region_missing")
    pre = r.choice(["no", "no", "empty", "force", "full"])
    if pre != "no":
        os.makedirs(outdir)
    if pre in ("force", "full"):
        os.makedirs(os.path.join(outdir, "old"))
        open(os.path.join(outdir, "old", "scaling.html"), "w").write("precious")
    if pre == "force" or (pre in ("no", "empty") and r.random() < 0.1):
        args.append("-f")
    before = snapshot(root)
    rc, o = talp(args)
    if snapshot(root) != before:
        viol("input-changed", "%s: ci-report changed the records" % what)
    if pre == "full":
        if rc == 0 or open(os.path.join(outdir, "old", "scaling.html")).read() != "precious" or sum(len(f) for _, _, f in os.walk(outdir)) != 1:
            viol("overwrite", "%s: the output folder was not empty and ci-report ended with %d" % (what, rc))
        stat("refused_overwrite")
        return
    if rc != 0:
        return viol("fails", "%s: ci-report %s ended with %d: %s" % (what, args[5:], rc, o[-900:]))
    check_report(outdir, tree, selected, badge, badge_region, "%s %s" % (what, " ".join(args[5:])))
    stat("reports")
    out("SIG %s %s" % (sorted(len(t) for t in tree.values()), sorted({n.label for t in tree.values() for n in t})))


def snapshot(root):
    s = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            s[os.path.relpath(os.path.join(d, f), root)] = open(os.path.join(d, f), "rb").read()
    return s


def invalid_case(r, d, what):
    root, outdir = os.path.join(d, "in"), os.path.join(d, "out")
    os.makedirs(root)
    tree = make_tree(r, root)
    kind = r.choice(["broken", "version", "empty", "noregions", "nojson", "toponly", "missing", "noinput"])
    args = ["ci-report", "-i", root, "-o", outdir, "--no-badge"]
    if kind in ("broken", "version", "empty", "noregions"):
        p = r.choice(sorted(tree))
        n = dict(r.choice(tree[p]).json)
        t = json.dumps(n)
        if kind == "broken": t = t[:r.randint(1, len(t) - 1)]
        elif kind == "empty": t = ""
        elif kind == "version": n["dlbVersion"] = r.choice(["3.4", "4.0", "13.5", "3.6", ""]); t = json.dumps(n)
        else: del n["Application"]; t = json.dumps(n)
        open(os.path.join(root, p, "bad.json"), "w").write(t)
    elif kind in ("nojson", "toponly"):
        for dd, _, fs in os.walk(root):
            for f in fs:
                if f.endswith(".json") and (kind == "nojson" or dd != root):
                    os.unlink(os.path.join(dd, f))
        if kind == "toponly":
            json.dump(tree[sorted(tree)[0]][0].json, open(os.path.join(root, "top.json"), "w"))
    elif kind == "missing":
        args[2] = os.path.join(d, "absent")
    else:
        args = ["ci-report", "-o", outdir]
    before = snapshot(root)
    rc, o = talp(args)
    stat("invalid_" + kind)
    if rc == 0 or os.path.exists(os.path.join(outdir, "index.html")):
        viol("invalid-accepted", "%s: ci-report over %s ended with %d" % (what, kind, rc))
    if snapshot(root) != before:
        viol("input-changed", "%s: ci-report changed the records" % what)


def metadata_case(r, d, what):
    root = os.path.join(d, "in")
    os.makedirs(root)
    tree = make_tree(r, root)
    conflict = any(n.meta for t in tree.values() for n in t)
    if conflict and r.random() < 0.6:
        for t in tree.values():
            for n in t:
                p = [k for k in tree if n in tree[k]][0]
                n.json.pop("metadata", None)
                if r.random() < 0.3:
                    n.json["metadata"] = {"user": "me", "n": 3, "list": [1, None]}
                n.meta = n.json.get("metadata")
                json.dump(n.json, open(os.path.join(root, p, n.file), "w"))
        conflict = False
    how = r.choice(["cli", "cli", "gitlab", "gitlab-mr", "github", "github-pr"])
    sha, branch, ts, mr = commit(r), r.choice(["main", "dev", "feature/ü"]), stamp(r), r.random() < 0.5
    args, env = ["metadata", "-i", root], {}
    must = {"gitCommit": sha, "gitBranch": branch}
    if how == "cli":
        args += ["--git-commit", sha, "--git-branch", branch]
        if r.random() < 0.7:
            args += ["--git-timestamp", ts]
            must["gitTimestamp"] = ts
        if mr:
            args.append("--is-merge-request")
            must["isMergeRequest"] = True
        if r.random() < 0.3:
            env = {"CI_COMMIT_SHA": "0" * 40, "CI_COMMIT_BRANCH": "other", "CI_COMMIT_TIMESTAMP": "2001-01-01T00:00:00Z"}
    elif how == "gitlab":
        env = {"CI_COMMIT_SHA": sha, "CI_COMMIT_BRANCH": branch, "CI_COMMIT_TIMESTAMP": ts + r.choice(["", "Z", "+02:00"])}
        must.update(gitTimestamp=ts, isMergeRequest=False)
    elif how == "gitlab-mr":
        env = {"CI_MERGE_REQUEST_ID": "7", "CI_COMMIT_SHA": sha, "CI_MERGE_REQUEST_SOURCE_BRANCH_NAME": branch, "CI_COMMIT_BRANCH": "other",
               "CI_DEFAULT_BRANCH": "trunk", "CI_COMMIT_TIMESTAMP": ts + r.choice(["", "Z", "-05:30"])}
        must.update(gitTimestamp=ts, isMergeRequest=True, defaultGitBranch="trunk")
    elif how == "github":
        env = {"GITHUB_SHA": sha, "GITHUB_REF_NAME": branch}
        must.update(isMergeRequest=False)
    else:
        env = {"GITHUB_SHA": sha, "GITHUB_HEAD_REF": branch, "GITHUB_REF_NAME": "7/merge"}
        must.update(isMergeRequest=True)
    before = snapshot(root)
    rc, o = talp(args, env)
    after = snapshot(root)
    stat("metadata_" + how)
    if set(before) != set(after):
        return viol("metadata-files", "%s: files %s" % (what, sorted(set(before) ^ set(after))))
    if (rc != 0) != conflict:
        return viol("metadata-status", "%s: metadata (%s, %s) ended with %d: %s" % (what, how, "conflict" if conflict else "no conflict", rc, o[-700:]))
    stat("metadata_conflict" if conflict else "metadata_added")
    for p, t in tree.items():
        for n in t:
            f = os.path.join(p, n.file)
            try:
                j = json.loads(after[f])
            except ValueError:
                return viol("metadata-broken", "%s: %s is not valid any more" % (what, f))
            if n.meta and "gitCommit" in n.meta:
                if before[f] != after[f]:
                    viol("metadata-overwritten", "%s: the metadata of %s was replaced" % (what, f))
                continue
            if conflict and before[f] == after[f]:
                continue
            new = j.pop("metadata", {})
            old = dict(n.json)
            om = old.pop("metadata", {})
            if j != old or any(new.get(k) != v for k, v in om.items()):
                viol("metadata-altered", "%s: metadata changed the rest of %s" % (what, f))
            for k, v in must.items():
                if new.get(k) != v:
                    viol("metadata-value", "%s (%s): %s of %s is %r instead of %r" % (what, how, k, f, new.get(k), v))
            stat("enriched")
    for f in before:
        if os.path.dirname(f) not in tree and before[f] != after[f]:
            viol("metadata-altered", "%s: %s changed" % (what, f))
    if not conflict:      # and the report of the enriched records shows it
        for p, t in tree.items():
            for n in t:
                n.json = json.loads(after[os.path.join(p, n.file)])
                n.meta = n.json.get("metadata")
                n.ts = n.meta.get("gitTimestamp") or n.runts
                n.commit = n.meta["gitCommit"][:7]
        outdir = os.path.join(d, "out")
        if all(len({n.ts for n in t if n.label == l}) == len([n for n in t if n.label == l]) for t in tree.values() for l in {n.label for n in t}):
            rc, o = talp(["ci-report", "-i", root, "-o", outdir, "--no-badge"])
            if rc != 0:
                return viol("fails", "%s: ci-report after metadata ended with %d: %s" % (what, rc, o[-900:]))
            check_report(outdir, tree, {"Global"}, False, "Global", what + " after metadata")
            stat("reports_enriched")


for i in range(N):
    seed = SEED * 1000 + i
    r = random.Random(seed)
    d = tempfile.mkdtemp(prefix="pages-")
    what = "case %d" % seed
    try:
        k = i % 8
        if k == 7: metadata_case(r, d, what)
        elif k == 6: invalid_case(r, d, what)
        elif k == 5: report_case(r, d, what, True)
        elif k == 4: metadata_case(r, d, what)
        else: report_case(r, d, what)
    finally:
        shutil.rmtree(d, ignore_errors=True)
out("STAT " + " ".join("%s=%d" % kv for kv in sorted(stats.items())))
out("DONE")

"""T04: parses the reports written by harness/talpout.cc and compares them with the values that were recorded."""
import csv, io, json, math, os, re, shutil, subprocess, tempfile
import xml.etree.ElementTree as ET
from vp import Lib
from talp import WRAP

COEF = ["parallelEfficiency", "mpiParallelEfficiency", "mpiCommunicationEfficiency", "mpiLoadBalance", "mpiLoadBalanceIn", "mpiLoadBalanceOut",
        "ompParallelEfficiency", "ompLoadBalance", "ompSchedulingEfficiency", "ompSerializationEfficiency"]
CSVKEY = {"region": "name", "omploadimbalance": "omploadimbalancetime"}
TXT = {"Number of CPUs": "numCpus", "Number of MPI processes": "numMpiRanks", "Number of nodes": "numNodes", "Average CPUs": "avgCpus", "Cycles": "cycles",
       "Instructions": "instructions", "Number of measurements": "numMeasurements", "Number of MPI calls": "numMpiCalls",
       "Number of OpenMP parallel regions": "numOmpParallels", "Number of OpenMP explicit tasks": "numOmpTasks", "Elapsed Time (ns)": "elapsedTime",
       "Useful Time (ns)": "usefulTime", "MPI Time (ns)": "mpiTime", "OpenMP Load Imbalance Time (ns)": "ompLoadImbalanceTime",
       "OpenMP Scheduling Time (ns)": "ompSchedulingTime", "OpenMP Serialization Time (ns)": "ompSerializationTime", "Useful Time normalized to App": "usefulNormdApp",
       "MPI Time normalized to App": "mpiNormdApp", "Maximum useful time across processes": "maxUsefulNormdProc", "Maximum useful time across nodes": "maxUsefulNormdNode",
       "the process with the max useful time": "mpiNormdOfMaxUseful", "Parallel efficiency": "parallelEfficiency", "MPI Parallel efficiency": "mpiParallelEfficiency",
       "- MPI Communication efficiency": "mpiCommunicationEfficiency", "- MPI Load Balance": "mpiLoadBalance", "- MPI Load Balance in": "mpiLoadBalanceIn",
       "- MPI Load Balance out": "mpiLoadBalanceOut", "OpenMP Parallel efficiency": "ompParallelEfficiency", "- OpenMP Load Balance": "ompLoadBalance",
       "- OpenMP Scheduling efficiency": "ompSchedulingEfficiency", "- OpenMP Serialization efficiency": "ompSerializationEfficiency"}
TXTP = {"Elapsed time": "elapsedTime", "Useful time": "usefulTime", "Not useful MPI": "mpiTime", "Not useful OMP Load Imbalance": "ompLoadImbalanceTime",
        "Not useful OMP Scheduling": "ompSchedulingTime", "Not useful OMP Serialization": "ompSerializationTime", "Rank": "rank"}


class Bad(Exception):
    def __init__(self, key, text):
        self.key, self.text = key, text


def same(text, v):
    """text, as written, is v (a number as text) up to the digits written"""
    text = str(text)
    if re.fullmatch(r"-?\d+", v) and re.fullmatch(r"-?\d+", text):
        return int(v) == int(text)
    if not re.fullmatch(r"-?\d+(\.\d+)?", text):
        return False
    dec = len(text.split(".")[1]) if "." in text else 0
    return abs(float(text) - float(v)) <= 0.5000001 * 10 ** -dec + 1e-6 * abs(float(v)) * (dec > 0) + 1e-15 * abs(float(v))


def readexp(fn):
    pop, nodes, regs, res, mons, meta = [], [], [], {}, [], {}
    for l in open(fn):
        f = l.split()
        n = b"" if f[1] == "-" else bytes.fromhex(f[1])
        kv = dict(x.split("=", 1) for x in f[2:])
        if f[0] == "RES": res = kv
        elif f[0] == "META": meta = kv
        elif f[0] == "POP": pop.append((n, kv))
        elif f[0] == "MON": mons.append((n, kv))
        elif f[0] == "NODE": nodes.append((kv, []))
        elif f[0] == "NPROC": nodes[-1][1].append(kv)
        elif f[0] == "REGION": regs.append((n, []))
        elif f[0] == "PROC": regs[-1][1].append(kv)
    return pop, nodes, regs, res, mons, meta


def valid(b, xml=False):
    """true if the name can be represented as it is"""
    try:
        s = b.decode("utf-8")
    except UnicodeDecodeError:
        return False
    return not (xml and re.search("[^\t\n\r\u0020-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]", s))


def namecheck(got, want, xml=False):
    if valid(want, xml):
        if got != want.decode():
            raise Bad("name", "region %r is written as %r" % (want, got))
    else:  # whatever cannot be represented may be replaced, everything else must be there
        keep = "".join(c for c in want.decode("utf-8", "ignore") if not xml or valid(c.encode(), True))
        it = iter(got)
        if not all(c in it for c in keep if ord(c) < 128):
            raise Bad("name", "region %r is written as %r" % (want, got))


def cmpkeys(got, want, what):
    for k, v in want.items():
        if k in ("hostname", "cpuset"):
            if k not in got or str(got[k]).strip('"') != v:
                raise Bad("value", "%s: %s is %r, recorded %r" % (what, k, got.get(k), v))
        elif k not in got:
            raise Bad("missing", "%s: there is no %s" % (what, k))
        elif not same(got[k], v):
            raise Bad("value", "%s: %s is %s, recorded %s" % (what, k, got[k], v))


def nodup(pairs):
    d = {}
    for k, v in pairs:
        if k in d:
            raise Bad("duplicate", "key %r twice in one object" % k)
        d[k] = v
    return d


def const(x):
    raise Bad("malformed", "JSON value %s" % x)


class Num(str):
    pass


def loadjson(fn):
    try:
        return json.loads(open(fn, "rb").read().decode("utf-8"), object_pairs_hook=nodup, parse_constant=const, parse_int=Num, parse_float=Num)
    except ValueError as e:
        raise Bad("malformed", "JSON: %s" % e)


def chk_json(fn, pop, nodes, regs, res):
    d = loadjson(fn)
    extra = set(d) - {"dlbVersion", "timestamp", "resources", "Application", "node", "Process"}
    if extra:
        raise Bad("extra", "unexpected keys %s" % sorted(extra))
    if not re.fullmatch(r"\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d", d.get("timestamp", "")) or not d.get("dlbVersion"):
        raise Bad("missing", "timestamp %r, version %r" % (d.get("timestamp"), d.get("dlbVersion")))
    if res is not None:
        cmpkeys(d["resources"], res, "resources")
    for key, exp in (("Application", pop), ("Process", regs)):
        got = list(d.get(key, {}).items())
        if len(got) != len(exp):
            raise Bad("count", "%d records in %s, %d recorded" % (len(got), key, len(exp)))
        for (gn, gv), (wn, wv) in zip(got, exp):
            namecheck(gn, wn)
            if key == "Application":
                cmpkeys(gv, wv, "region %r" % wn)
            else:
                if len(gv) != len(wv):
                    raise Bad("count", "%d processes in region %r, %d recorded" % (len(gv), wn, len(wv)))
                for a, b in zip(gv, wv):
                    cmpkeys(a, b, "region %r, process" % wn)
    got = d.get("node", [])
    if len(got) != len(nodes):
        raise Bad("count", "%d nodes, %d recorded" % (len(got), len(nodes)))
    for g, (kv, pr) in zip(got, nodes):
        flat = {"id": g["id"], "avgUseful": g["nodeAvg"]["usefulTime"], "avgMpi": g["nodeAvg"]["mpiTime"], "maxUseful": g["nodeMax"]["usefulTime"], "maxMpi": g["nodeMax"]["mpiTime"]}
        cmpkeys(flat, kv, "node")
        if len(g["process"]) != len(pr):
            raise Bad("count", "%d processes in a node, %d recorded" % (len(g["process"]), len(pr)))
        for a, b in zip(g["process"], pr):
            cmpkeys(a, b, "process of a node")


def chk_xml(fn, pop, nodes, regs, res):
    try:
        root = ET.fromstring(open(fn, "rb").read())
    except ET.ParseError as e:
        raise Bad("malformed", "XML: %s" % e)

    def kids(e):
        return {c.tag: (c.text or "") for c in e if len(c) == 0}
    if res is not None:
        cmpkeys(kids(root.find("resources")), res, "resources")
    app, nod, pro = root.findall("Application"), root.findall("node"), root.findall("Process")
    if (len(app), len(nod), len(pro)) != (len(pop), len(nodes), len(regs)):
        raise Bad("count", "%s records, recorded %s" % ((len(app), len(nod), len(pro)), (len(pop), len(nodes), len(regs))))
    for e, (n, kv) in zip(app, pop):
        namecheck(e.findtext("name"), n, True); cmpkeys(kids(e), kv, "region %r" % n)
    for e, (kv, pr) in zip(nod, nodes):
        flat = {"id": e.findtext("id"), "avgUseful": e.findtext("nodeAvg/usefulTime"), "avgMpi": e.findtext("nodeAvg/mpiTime"), "maxUseful": e.findtext("nodeMax/usefulTime"), "maxMpi": e.findtext("nodeMax/mpiTime")}
        cmpkeys(flat, kv, "node")
        if len(e.findall("process")) != len(pr):
            raise Bad("count", "processes of a node")
        for a, b in zip(e.findall("process"), pr):
            cmpkeys(kids(a), b, "process of a node")
    for e, (n, pr) in zip(pro, regs):
        namecheck(e.findtext("name"), n, True)
        if len(e.findall("process")) != len(pr):
            raise Bad("count", "%d processes in region %r, %d recorded" % (len(e.findall("process")), n, len(pr)))
        for a, b in zip(e.findall("process"), pr):
            cmpkeys(kids(a), b, "region %r, process" % n)


def rows(fn):
    raw = open(fn, "rb").read().decode("utf-8", "surrogateescape")
    try:
        rs = list(csv.reader(io.StringIO(raw, newline=""), strict=True))
    except csv.Error as e:
        raise Bad("malformed", "CSV: %s" % e)
    if not raw.endswith("\n"):
        raise Bad("malformed", "CSV: the last line has no end")
    for i, x in enumerate(rs):
        if len(x) != len(rs[0]):
            raise Bad("malformed", "CSV: row %d has %d fields, the header has %d" % (i, len(x), len(rs[0])))
    head = [CSVKEY.get(h.lower(), h.lower()) for h in rs[0]]
    return [dict(zip(head, x)) for x in rs[1:]]


def chk_csv(base, pop, nodes, regs, times):
    kinds = [k for k, v in (("pop", pop), ("node", nodes), ("process", regs)) if v]
    files = {k: base + "-" + k + ".csv" for k in kinds} if len(kinds) > 1 else {k: base + ".csv" for k in kinds}
    low = lambda kv: {k.lower(): v for k, v in kv.items()}

    def each(got, want, what):
        if len(got) != len(want) * times:
            raise Bad("count", "CSV: %d %s rows, %d recorded" % (len(got), what, len(want) * times))
        for g, (n, kv) in zip(got, want * times):
            if n is not None and g["name"] != n.decode("utf-8", "surrogateescape"):
                raise Bad("name", "CSV: region %r is written as %r" % (n, g["name"]))
            cmpkeys(g, low(kv), "CSV %s %r" % (what, n))
    if pop:
        each(rows(files["pop"]), pop, "pop")
    if nodes:
        each(rows(files["node"]), [(None, {"NodeId": kv["id"], "ProcessId": p["id"], "ProcessUsefulTime": p["usefulTime"], "ProcessMPITime": p["mpiTime"], "NodeAvgUsefulTime": kv["avgUseful"],
                                           "NodeAvgMPITime": kv["avgMpi"], "NodeMaxUsefulTime": kv["maxUseful"], "NodeMaxMPITime": kv["maxMpi"]}) for kv, pr in nodes for p in pr], "node")
    if regs:
        each(rows(files["process"]), [(n, p) for n, pr in regs for p in pr], "process")


def chk_txt(fn, pop, nodes, regs, res, printed=False):
    if any(re.search(rb"[\n\r]", n) for n, _ in pop + regs):
        return False
    raw = open(fn, "rb").read().decode("utf-8", "surrogateescape")
    sec, cur, table = [], None, []
    for l in raw.split("\n"):
        if printed:
            l = re.sub(r"^DLB[^\]]*\]: ", "", l)
        m = re.match(r"#{10,} (.*?) #{10,}$", l)
        if m:
            cur = (m.group(1), {}); sec.append(cur); continue
        m = re.match(r" \| +Extended Report Node +(-?\d+)", l) or re.match(r" \| +Extended Report Node *(-?\d+)", l)
        m2 = re.match(r" \|? *\|? *Extended Report Node *(-?\d+)", l)
        if m or m2:
            table.append(((m or m2).group(1), [])); continue
        m = re.match(r" \| (Node Avg|Node Max|-?\d+) +\| +(\S+) s \| +(\S+) s \|", l)
        if m and table:
            table[-1][1].append(m.groups()); continue
        m = re.match(r"### ?(.*?): {1,}(.*)$", l) if cur is not None else None
        if m:
            k = m.group(1).strip()
            if k == "Name":
                pre = "### Name:"; v = l[len(pre):]; pad = 37 if (cur[0].startswith("Monitoring Region Summary") or printed or "No data" in raw and False) else None
                cur[1]["Name"] = v.lstrip(" ") if pad is None else v
            else:
                cur[1].setdefault(k, m.group(2))
        elif cur is not None and "No data" in l:
            cur[1]["nodata"] = True
    P = [s[1] for s in sec if s[0] == "Monitoring Region POP Metrics"]
    S = [s[1] for s in sec if s[0] == "Monitoring Region Summary"]
    flat = [(n, p) for n, pr in regs for p in pr]
    if len(P) != len(pop) or len(S) != len(flat):
        raise Bad("count", "text: %d regions and %d processes, recorded %d and %d" % (len(P), len(S), len(pop), len(flat)))
    dec = lambda n: n.decode("utf-8", "surrogateescape")
    for g, (n, kv) in zip(P, pop):
        if g.get("Name", "").strip() != dec(n).strip():
            raise Bad("name", "text: region %r is written as %r" % (n, g.get("Name")))
        if int(kv["elapsedTime"]) <= 0:
            if not g.get("nodata"):
                raise Bad("value", "text: region %r without data is reported with data" % n)
        elif printed:
            for lab, k in TXT.items():
                if k in COEF and lab in g and not same(g[lab], kv[k]):
                    raise Bad("value", "printed: %s of %r is %s, recorded %s" % (k, n, g[lab], kv[k]))
        else:
            cmpkeys({k: g.get(lab) for lab, k in TXT.items()}, kv, "text: region %r" % n)
    for g, (n, kv) in zip(S, flat):
        if g.get("Name", "").strip() != dec(n).strip():
            raise Bad("name", "text: region %r is written as %r" % (n, g.get("Name")))
        if g["Process"] != "%s (%s)" % (kv["pid"], kv["hostname"]) or g["CpuSet"] != kv["cpuset"]:
            raise Bad("value", "text: process %r, CPU set %r, recorded %s (%s), %s" % (g["Process"], g["CpuSet"], kv["pid"], kv["hostname"], kv["cpuset"]))
        for lab, k in TXTP.items():
            if lab in g or not printed:
                if not same(g.get(lab, "").replace(" ns", ""), kv[k]):
                    raise Bad("value", "text: %s of %r is %s, recorded %s" % (k, n, g.get(lab), kv[k]))
    if len(table) != len(nodes):
        raise Bad("count", "text: %d nodes, recorded %d" % (len(table), len(nodes)))
    for (i, rs), (kv, pr) in zip(table, nodes):
        want = [(p["id"], p["usefulTime"], p["mpiTime"]) for p in pr] + ([("Node Avg", kv["avgUseful"], kv["avgMpi"]), ("Node Max", kv["maxUseful"], kv["maxMpi"])] if pr else [])
        if i != kv["id"] or len(rs) != len(want):
            raise Bad("value", "text: node %s with %d rows, recorded %s with %d" % (i, len(rs), kv["id"], len(want)))
        for a, b in zip(rs, want):
            if a[0] != b[0] or any(abs(float(x) - int(y) / 1e9) > 1e-6 * abs(int(y) / 1e9) + 1e-15 for x, y in zip(a[1:], b[1:])):
                raise Bad("value", "text: row %s of a node, recorded %s" % (a, b))
    if res is not None and not printed:
        rr = [s[1] for s in sec if s[0] == "TALP Resources"][0]
        if (rr["Number of CPUs"], rr["Number of Nodes"], rr["Number of MPI processes"]) != (res["numCpus"], res["numNodes"], res["numMpiRanks"]):
            raise Bad("value", "text: resources %s" % rr)
    return True


def popof(mon, v2):
    """POP metrics of a process without MPI (definitions of perf_metrics.h)"""
    g = lambda k: int(mon[k])
    kv = {k: mon[k] for k in ("numCpus", "avgCpus", "cycles", "instructions", "numMeasurements", "numMpiCalls", "numOmpParallels", "numOmpTasks", "elapsedTime", "usefulTime", "mpiTime",
                              "ompLoadImbalanceTime", "ompSchedulingTime", "ompSerializationTime")}
    u, m, lb, sc, se, n = g("usefulTime"), g("mpiTime"), g("ompLoadImbalanceTime"), g("ompSchedulingTime"), g("ompSerializationTime"), g("numCpus")
    if g("elapsedTime") <= 0:
        return {k: "0" for k in list(kv) + COEF + ["usefulNormdApp", "mpiNormdApp", "maxUsefulNormdProc", "maxUsefulNormdNode", "mpiNormdOfMaxUseful", "numMpiRanks", "numNodes"]}
    kv["numMpiRanks"], kv["numNodes"] = "0", "1"
    if n > 0:
        for k in ("usefulNormdApp", "maxUsefulNormdProc", "maxUsefulNormdNode"):
            kv[k] = repr(u / n)
        for k in ("mpiNormdApp", "mpiNormdOfMaxUseful"):
            kv[k] = repr(m / n)
    co = dict.fromkeys(COEF, 0.0)
    if u > 0:
        a, t = u + m + lb + sc + se, u + m
        co.update(parallelEfficiency=u / a, mpiParallelEfficiency=u / t, mpiCommunicationEfficiency=u / t, mpiLoadBalance=1.0, mpiLoadBalanceIn=1.0, mpiLoadBalanceOut=1.0,
                  ompParallelEfficiency=t / a, ompLoadBalance=(t + se) / (t + se + lb), ompSchedulingEfficiency=(t + se + lb) / a, ompSerializationEfficiency=t / (t + se))
    kv.update({k: repr(x) for k, x in co.items()})
    return kv


def ranges(cpus):
    out, i = [], 0
    while i < len(cpus):
        j = i
        while j + 1 < len(cpus) and cpus[j + 1] == cpus[j] + 1:
            j += 1
        out.append(str(cpus[i]) if j == i else "%d,%d" % (cpus[i], cpus[j]) if j == i + 1 else "%d-%d" % (cpus[i], cpus[j])); i = j + 1
    return ",".join(out)


def case(c, f):
    kind, base, plain = f[0], f[1], f[2] == "1"
    pop, nodes, regs, res, mons, meta = readexp(base + ".exp")
    any_ = bool(pop or nodes or regs)
    n = 0

    def do(name, fn, *a):
        nonlocal n
        try:
            n += 1
            if fn(*a) is False:
                c.stat("text_skipped")
            c.stat("checked_" + name)
        except Bad as e:
            c.violation("T04/%s-%s" % (name, e.key), "%s (%s case, names %s)" % (e.text, kind, [x for x, _ in pop + regs + mons][:4]), None, c.replaytext)
        except (KeyError, IndexError, AttributeError, OSError, TypeError) as e:
            c.violation("T04/%s-malformed" % name, "%s report without an expected part: %r (%s case)" % (name, e, kind), None, c.replaytext)
    if kind == "direct":
        times = 2 if f[3] == "1" else 1
        if any_:
            do("json", chk_json, base + ".json", pop, nodes, regs, res)
            do("xml", chk_xml, base + ".xml", pop, nodes, regs, res)
            do("csv", chk_csv, base, pop, nodes, regs, times)
            do("txt", chk_txt, base + ".txt", pop, nodes, regs, res)
            do("txt", chk_txt, base + ".out.dat", pop, nodes, regs, res)
            do("printed", chk_txt, base + ".err", pop, nodes, regs, None, True)
        else:
            for e in ("json", "xml", "csv", "txt"):
                if os.path.exists(base + "." + e):
                    c.violation("T04/empty-file", "a report without records wrote %s" % e)
    else:
        s = int(meta["sum"]); ext = f[3]
        mons.sort(key=lambda x: x[0])
        host = os.uname().nodename[:63]
        # in the order of the report: regions are kept ordered by name
        pop = [(x, popof(kv, meta["model"] == "1")) for x, kv in mons] if s & 1 else []
        cp = ranges([int(x) for x in meta["cpus"].split(",")])
        if ext == "txt":
            cp = "[%s]" % cp
        regs = [(x, [dict(kv, rank="0", pid=meta["pid"], nodeId="0", hostname=host, cpuset=cp)]) for x, kv in mons] if s & 2 else []
        for r in regs:
            if len(cp) > 125:
                r[1][0].pop("cpuset")
        glob = [kv for x, kv in mons if x == b"Global"][0]
        res = {"numCpus": glob["numCpus"] if s & 1 and int(glob["elapsedTime"]) > 0 else "0", "numNodes": "1" if s & 1 and int(glob["elapsedTime"]) > 0 else "0", "numMpiRanks": "0"}
        fn = base + "." + ext
        # order of the tree of regions: by name, but compared as the library does (case-insensitively or not): only the set is checked here
        order = None
        if ext == "json":
            try:
                d = loadjson(fn); order = list(d.get("Application", d.get("Process", {})))
            except Bad as e:
                c.violation("T04/json-" + e.key, e.text + " (run)", None, c.replaytext); return n
            except OSError as e:
                c.violation("T04/json-missing-file", str(e), None, c.replaytext); return n
        do(ext, {"json": chk_json, "xml": chk_xml, "csv": lambda f_, p, no, r, re_: chk_csv(base, p, no, r, 1), "txt": chk_txt}[ext], fn, pop, nodes, regs, res)
    return n


def T04(c):
    c.tags |= {"T04"}
    exe = {v: Lib(v).exe("talpout", ["talpout.cc", "shim.c"], WRAP) for v in ("asan", "asanr")}
    top = tempfile.mkdtemp(prefix="vpT04_")
    try:
        loc = os.path.join(top, "loc"); os.mkdir(loc)
        subprocess.run(["localedef", "-i", "de_DE", "-f", "UTF-8", loc + "/de_DE.UTF-8"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        env = {"LOCPATH": loc}

        def one(i):
            key = "vpT04_%d_%d" % (os.getpid(), i)
            d = os.path.join(top, str(i)); os.mkdir(d)
            r = c.run_case([exe["asan" if i % 2 else "asanr"], str(c.rng.randrange(1 << 30)), "40", d, key], timeout=200, env=env, what="talpout", shmkey=key)
            c.replaytext = r.out[-1500:] + "\ncommand: " + " ".join(r.cmd)
            n = 0
            for l in r.out.splitlines():
                if l.startswith("CASE "):
                    n += case(c, l.split()[1:]); c.sig(l.split()[1] + "/" + "/".join(l.split()[3:]) + "/" + str(hash(open(l.split()[2] + ".exp").read()) % 100000))
            c.stat("evaluations", n)
            shutil.rmtree(d, ignore_errors=True)
        c.pmap(one, range(c.scale(60, 900)), 8)
    finally:
        shutil.rmtree(top, ignore_errors=True)
    c.sample("direct: pop-metrics, node and process records with any names (quotes, markup, commas, control characters, UTF-8 and invalid UTF-8) and values up to 2^63, written as JSON, XML, CSV (also appended), text and printed, under C and comma-decimal locales")
    c.sample("e2e: DLB_Init, regions started, stopped and reset under a virtual clock, DLB_Finalize; the report compared with the regions and the metric definitions")
    c.evaluations = c.stats.get("evaluations", 0)
    c.finish("distinct recorded contents; an evaluation is one report parsed and compared value by value with what was recorded",
             2000, ("evaluations", "checked_json", "checked_xml", "checked_csv", "checked_txt", "checked_printed", "locale_checked", "runs", "unwritable"))

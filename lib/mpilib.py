"""DLB compiled with MPI support against the installed mpi.h, with the wrappers generated by the repository's own generator."""
import glob, os, re, shutil, subprocess, sys
import vp
from vp import Lib, REPO, HarnessError, sh, cflags, repo_sources, _compile_many


def mpi_flags():
    for d in ["/usr/lib/x86_64-linux-gnu/openmpi/include"] + glob.glob("/usr/lib/*/openmpi/include") + glob.glob("/usr/include/openmpi*"):
        if os.path.exists(os.path.join(d, "mpi.h")):
            return ["-I", d, "-I", os.path.join(d, "openmpi")]
    raise HarnessError("no mpi.h")


def common_sources():
    txt = open(os.path.join(REPO, "meson.build")).read()
    m = re.search(r"^common_srcs\s*=\s*\[(.*?)^\]", txt, re.S | re.M)
    return re.findall(r"'(src/[^']+\.c)'", m.group(1))


class GenerationError(Exception):
    pass


class MpiLib(Lib):
    """extra: nothing; the archive has everything that libdlb_mpi.so has."""
    def __init__(self, variant):
        super().__init__(variant, extra=["-DMPI_LIB"] + mpi_flags())

    def _build(self, exclude):
        shutil.rmtree(self.dir, ignore_errors=True)
        gen = os.path.join(self.dir, "gen", "LB_MPI")
        os.makedirs(gen)
        vp.gen_includes(self.inc)
        M = os.path.join(REPO, "src", "LB_MPI")
        for f in sorted(glob.glob(os.path.join(M, "*.in"))):
            o = os.path.join(gen, os.path.basename(f)[:-3])
            r = sh([sys.executable, os.path.join(REPO, "scripts", "pygen.py"), "--ifile", f, "--ofile", o, "--json", os.path.join(M, "mpicalls.json"),
                    "--std", "3.1", "--lib", "Open MPI v4.1.6, package: Debian OpenMPI, ident: 4.1.6"])
            if r.returncode or not os.path.exists(o):
                raise HarnessError("pygen.py fails on %s: %s" % (f, r.stdout[-2000:]))
        common, jobs, objs = set(common_sources()), [], []
        inc = ["-I", os.path.join(self.dir, "gen")] + mpi_flags()
        srcs = [os.path.join(REPO, s) for s in repo_sources()] + [os.path.join(M, "process_MPI.c")] + [os.path.join(gen, f) for f in
                ("MPI_calls_coded.c", "MPI_interface.c", "MPI_interfaceF.c", "MPI_intercept.c", "MPI_interceptF.c")]
        for s in srcs:
            o = os.path.join(self.dir, os.path.relpath(s, REPO).replace("/", "_").replace("..", "") [:-2] + ".o")
            fl = [] if os.path.relpath(s, REPO) in common else ["-DMPI_LIB"] + inc
            jobs.append((cflags(self.variant, self.inc) + fl + ["-c", s, "-o", o], o))
            objs.append(o)
        if shutil.which("gfortran"):
            o = os.path.join(self.dir, "f08.o")
            san = [f for f in vp.VARIANTS[self.variant][1] if f.startswith("-O")]
            jobs.append((["gfortran", "-g", "-fPIC", "-cpp", "-J", self.dir, "-I", os.path.join(self.dir, "gen")] + san + ["-w", "-c", os.path.join(gen, "MPI_interceptF08.F90"), "-o", o], o))
            objs.append(o)
        _compile_many(jobs)
        r = sh(["ar", "rcs", self.archive + ".tmp"] + objs)
        if r.returncode:
            raise HarnessError("ar: " + r.stdout)
        os.rename(self.archive + ".tmp", self.archive)


# ---- programs that use it: stubs of the MPI library and calls to every intercepted routine, made from harness/mpi_calls.txt ----

def calls():
    for l in open(os.path.join(vp.VERIF, "harness", "mpi_calls.txt")):
        n, c, f = l.rstrip("\n").split("|")
        split = lambda p: [] if p == "void" else [x.strip() for x in p.split(",")]
        yield n, split(c), split(f)


def _ptype(p):
    m = re.match(r"^(.*?)(\w+)((?:\[\d*\])*)$", p)
    t, n, b = m.group(1).strip(), m.group(2), re.findall(r"\[(\d*)\]", m.group(3))
    if b:
        t += " *" if len(b) == 1 else " (*)[%s]" % b[1]
    return t, n


def generate(path):
    o = ["#include <mpi.h>", "#include <stddef.h>", "#include <stdint.h>", "long vh_pcall(int idx, int fortran, int n, const long *a);"]
    tab = []
    mpih = "".join(open(os.path.join(d, "mpi.h")).read() for d in mpi_flags()[1:2])
    for i, (n, cp, fp) in enumerate(calls()):
        low = n.lower()
        ct, ft = [_ptype(p) for p in cp], [_ptype(p) for p in fp]
        lens = [x for x in ft if x[1].endswith("_len") and "*" not in x[0]]
        decl = lambda ps: ", ".join(ps) or "void"
        arr = lambda ts: "long a[%d] = {%s};" % (len(ts) + 1, ", ".join("(long)" + x for _, x in ts) or "0")
        use = lambda ts: ", ".join("(%s)v[%d]" % (t, k) for k, (t, _) in enumerate(ts))
        trunc = lambda ts: " ".join("v[%d] = (long)(%s)v[%d];" % (k, t, k) for k, (t, _) in enumerate(ts))
        o.append("int P%s(%s) { %s return (int)vh_pcall(%d, 0, %d, a); }" % (n, decl(cp), arr(ct), i, len(ct)))
        o.append("void p%s(%s) { %s long r = vh_pcall(%d, 1, %d, a); *ierror = (MPI_Fint)r; }" % (low, decl(fp), arr(ft), i, len(ft)))
        o.append("int %s(%s); void DLB_%s_enter(%s); void DLB_%s_leave(void); void DLB_%s_F_enter(%s); void DLB_%s_F_leave(void);" % (n, decl(cp), n, decl(cp), n, n, decl(fp), n))
        for s in ("", "_", "__"):
            o.append("void %s%s(%s);" % (low, s, decl(fp)))
        o.append("void %s_f08_(%s);" % (low, ", ".join(["void*"] * (len(ft) - len(lens)) + ["size_t"] * len(lens))))
        o.append("static long c%d(long *v) { %s return %s(%s); }" % (i, trunc(ct), n, use(ct)))
        o.append("static long e%d(long *v) { %s DLB_%s_enter(%s); return 0; }" % (i, trunc(ct), n, use(ct)))
        o.append("static long l%d(long *v) { (void)v; DLB_%s_leave(); return 0; }" % (i, n))
        o.append("static long x%d(long *v) { %s DLB_%s_F_enter(%s); return 0; }" % (i, trunc(ft), n, use(ft)))
        o.append("static long y%d(long *v) { (void)v; DLB_%s_F_leave(); return 0; }" % (i, n))
        for k, s in enumerate(("", "_", "__")):
            o.append("static long f%d_%d(long *v) { %s %s%s(%s); return 0; }" % (k, i, trunc(ft), low, s, use(ft)))
        o.append("static long g%d(long *v) { %s %s_f08_(%s); return 0; }" % (i, trunc(ft), low, ", ".join(("(size_t)v[%d]" if t in lens else "(void*)v[%d]") % k for k, t in enumerate(ft))))
        ier = [k for k, (_, x) in enumerate(ft) if x == "ierror"][0]
        fc = sum(1 << k for k, (_, x) in enumerate(ft))
        tab.append('{"%s", %d, %d, %d, {c%d, f0_%d, f1_%d, f2_%d, g%d, e%d, x%d}, {l%d, y%d}}' % ((n, len(ct), len(ft), ier) + (i,) * 9))
    o.append("const struct vh_call { const char *name; int nc, nf, ier; long (*fn[7])(long*); long (*leave[2])(long*); } vh_calls[] = {\n%s\n};\nconst int vh_ncalls = %d;" % (",\n".join(tab), len(tab)))
    # what the MPI library would define besides
    known = set(n for n, _, _ in calls()) | {"MPI_" + x for x in FUNCTIONAL}
    sym = ["void vh_unsupported(const char *);"]
    for s in sorted(set(re.findall(r"OMPI_PREDEFINED_GLOBAL\s*\(\s*[\w ]+,\s*(ompi_\w+)\s*\)", mpih))):
        sym.append("char %s[1024] __attribute__((weak, aligned(64)));" % s)
    for s in sorted(set(re.findall(r"\bP(MPI_\w+)\s*\(", mpih)) - known):
        sym.append('__attribute__((weak)) void P%s(void) { vh_unsupported("P%s"); } __attribute__((weak)) void %s(void) { vh_unsupported("%s"); }' % (s, s, s, s))
    with open(path + ".tmp", "w") as f:
        f.write("\n".join(o) + "\n")
    os.rename(path + ".tmp", path)
    p2 = path.replace(".c", "_sym.c")
    with open(p2 + ".tmp", "w") as f:
        f.write("\n".join(sym) + "\n")
    os.rename(p2 + ".tmp", p2)
    return [path, p2]


FUNCTIONAL = ("Get_library_version", "Error_string", "Comm_set_errhandler", "Type_match_size", "Type_create_struct", "Type_create_resized", "Type_commit", "Type_free", "Type_contiguous", "Type_size")


def program(variant):
    lib = MpiLib(variant)
    gen = generate(os.path.join(lib.dir, "mpi_gen.c"))
    libs = ["-lgfortran"] if shutil.which("gfortran") else []
    return lib.exe("mpi", ["mpi.cc", "mpi_mini.c", "shim.c"] + gen, ["-w", "-Wl,--wrap=clock_gettime"], libs, whole=True)

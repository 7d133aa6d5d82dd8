#!/usr/bin/env python3
"""Builds the simulator with the program under test from /repo's working tree.  Usage: build.py OUTDIR"""
import hashlib, os, re, subprocess, sys, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
DEFAULT = "config_file_yacc config_file_lex builtin_table clean_string clean_utf_8 config_file config_file_dump config_file_spoof detox file filelist filter parse_options parse_table sequence table wrapped".split()
# the committed generated parser and scanner as they belong to the committed grammar: (sha256 of the grammar, of the generated file)
PAIR = {
    "config_file_yacc": ("e539eb834d6ed1ce11f56462cb005228e138d18271ba8ea6f8b7a7be7f1ea37b", "fa878a26593aa5ef58c7ecbfa69e67fb804f5c935332b73f93f02bc25d3583e2"),
    "config_file_lex": ("47d1fd4aad7adbde1b1b0ced4f87a297ab5371fdef7d617087415a52ff2d3919", "1324d814267ecfbad74fa28315d5262ed05395b476b6a71b5006b112cf7a0cdc"),
}

def sources():
    names = []
    try:
        am = open(os.path.join(REPO, "src/Makefile.am")).read().replace("\\\n", " ")
        m = re.search(r"^detox_SOURCES\s*\+?=\s*(.*)$", am, re.M)
        if m:
            for w in m.group(1).split():
                b, e = os.path.splitext(w)
                if e in (".c", ".y", ".l"):
                    names.append(b)
    except OSError:
        pass
    return names or DEFAULT

def sha(p):
    return hashlib.sha256(open(p, "rb").read()).hexdigest()

def build(out):
    os.makedirs(out, exist_ok=True)
    src = os.path.join(REPO, "src")
    jobs, objs, objs2 = [], [], []
    cov = ["-fsanitize-coverage=trace-pc"] if os.environ.get("VERIF_COV") else []   # development: which code do the workloads reach
    gen = os.path.join(out, "gen")
    inc = ["-I" + SIM, "-I" + src]
    cdef = ["-DHAVE_CONFIG_H", '-DDATADIR="/usr/local/share"', '-DSYSCONFDIR="/usr/local/etc"', "-DYY_NO_INPUT", "-DYY_NO_UNPUT"]
    names = sources()
    os.makedirs(os.path.join(out, "repo"), exist_ok=True)
    try:
        rc = open(os.path.join(REPO, "etc/detoxrc"), "rb").read()
    except OSError:
        rc = b""
    open(os.path.join(out, "repo/detoxrc"), "wb").write(rc)
    regen = {}
    y, l = os.path.join(src, "config_file_yacc.y"), os.path.join(src, "config_file_lex.l")
    os.makedirs(gen, exist_ok=True)
    def stale(n, g):
        # like make, which runs bison or flex when the grammar is newer; a generated file that was changed itself is used as it is
        c = os.path.join(src, n + ".c")
        return os.path.exists(g) and (not os.path.exists(c) or (sha(g) != PAIR[n][0] and sha(c) == PAIR[n][1]))
    if stale("config_file_yacc", y):
        subprocess.run(["bison", "-y", "-d", "-o", os.path.join(gen, "config_file_yacc.c"), y], check=True, stderr=subprocess.DEVNULL)
        regen["config_file_yacc"] = os.path.join(gen, "config_file_yacc.c")
        inc = ["-I" + SIM, "-I" + gen, "-I" + src]
    if stale("config_file_lex", l):
        subprocess.run(["flex", "-i", "-o", os.path.join(gen, "config_file_lex.c"), l], check=True)
        regen["config_file_lex"] = os.path.join(gen, "config_file_lex.c")
    for n in names:
        c = regen.get(n) or os.path.join(src, n + ".c")
        o = os.path.join(out, "d_" + n.replace("/", "_") + ".o")
        objs.append(o)
        jobs.append(["gcc", *cdef, *inc, "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=2", "-g1", "-O2", "-w", "-fstack-protector-strong", "-fstack-clash-protection", "-Dmain=detox_main", "-fno-pie", *cov, "-c", c, "-o", o])
        # the second compilation: no optimisation (gcc drops branches that use uninitialised variables otherwise), automatic variables start with a pattern, array bounds checked
        o = os.path.join(out, "v_" + n.replace("/", "_") + ".o")
        objs2.append(o)
        jobs.append(["gcc", *cdef, *inc, "-g1", "-O0", "-w", "-ftrivial-auto-var-init=pattern", "-fsanitize=bounds", "-fsanitize-undefined-trap-on-error", "-Dmain=detox_main", "-fno-pie", "-c", c, "-o", o])
    if cov:
        o = os.path.join(out, "s_cov.o")
        objs.append(o)
        jobs.append(["g++", "-std=c++20", "-O2", "-fno-pie", "-c", os.path.join(SIM, "cov.cc"), "-o", o])
    for n in ("kern", "trap", "heap", "scen", "model", "gen", "oracle", "driver"):
        o = os.path.join(out, "s_" + n + ".o")
        objs.append(o)
        opt = "-O2" if n in ("kern", "heap") else "-O1"
        extra = ["-fno-builtin", "-fno-stack-protector"] if n in ("heap",) else []
        jobs.append(["g++", "-std=c++20", opt, "-g1", "-Wall", "-Wextra", "-fno-pie", *extra, "-I" + SIM, "-c", os.path.join(SIM, n + ".cc"), "-o", o])
    jobs.sort(key=lambda j: -os.path.getsize(j[-3]) * (3 if j[0] == "g++" else 1))
    def one(j):
        r = subprocess.run(j, capture_output=True, text=True)
        return r.returncode, " ".join(j) + "\n" + r.stdout + r.stderr if r.returncode else r.stderr
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        res = list(ex.map(one, jobs))
    bad = [t for c, t in res if c]
    if os.environ.get("VERIF_WARN"):
        for c, t in res:
            if t: print(t)
    if bad:
        sys.stderr.write("\n".join(bad[:3]))
        return None
    # both compilations are linked into one executable: everything the second one defines is renamed
    nm = subprocess.run(["nm", "-g", "--defined-only", *objs2], capture_output=True, text=True)
    defs = {l.split()[2] for l in nm.stdout.splitlines() if len(l.split()) == 3}
    ren = os.path.join(out, "v2.syms")
    open(ren, "w").write("".join("%s v2_%s\n" % (d, d) for d in sorted(defs)))
    for o in objs2:
        r = subprocess.run(["objcopy", "--redefine-syms=" + ren, o], capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write(r.stderr)
            return None
    exe = os.path.join(out, "detox-sim")
    r = subprocess.run(["g++", "-no-pie", "-Wl,-z,now", "-o", exe, *objs, *objs2], capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(r.stderr)
        return None
    return exe

if __name__ == "__main__":
    sys.exit(0 if build(sys.argv[1]) else 2)

#!/usr/bin/env python3
"""Compares the simulated kernel with Linux: fault-free scenarios are run by the simulator and by an ordinary build of the
program on a tmpfs inside a user and mount namespace of its own; trees, outputs and exit statuses have to agree.
Development tool, no check depends on it.   conform.py PROP FIRST RUNS"""
import os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

def unesc(s):
    b = s.encode("latin-1")
    if b == b"%":
        return b""
    return re.sub(rb"%([0-9a-f]{2})", lambda m: bytes([int(m.group(1), 16)]), b)

def inner(root, prop, first, runs, sim):
    R = root.encode()
    def sh(*a): subprocess.run(a, check=True)
    # all on one tmpfs, with the libraries bound to where the loader finds them
    keep = open(root + "/usr/local-detox/detox", "rb").read()
    sh("mount", "-t", "tmpfs", "tmpfs", root)
    tm = ["w", "cfg", "home", "usr/local", "etc", "usr/lib/locale"]
    for d in tm + ["dev", "lib64", "lib", "opt"]: os.makedirs(root + "/" + d)
    with open(root + "/opt/detox", "wb") as f: f.write(keep)
    os.chmod(root + "/opt/detox", 0o755)
    sh("mount", "--bind", "/usr/lib64", root + "/lib64")
    sh("mount", "--bind", "/usr/lib", root + "/lib")
    open(root + "/dev/null", "w").close()
    sh("mount", "--bind", "/dev/null", root + "/dev/null")
    base = {"/" + d for d in tm}
    bad = n = 0
    p = subprocess.Popen([sim, "--data", HERE + "/sim/data", "--prop", prop, "--conform", first, "--runs", runs], stdout=subprocess.PIPE)
    cur = []
    for line in p.stdout:
        line = line.decode("latin-1").rstrip("\n")
        if line != "= end":
            cur.append(line)
            continue
        sc, cur = cur, []
        nodes, procs, res = [], [], []
        seed = ""
        entries = set()
        skip = False
        for l in sc:
            t = l.split(" ")
            if t[0] == "seed": seed = t[1]
            elif t[0] == "node":
                kv = dict(x.split("=", 1) for x in t[3:])
                nodes.append((t[1], unesc(t[2]), unesc(kv.get("data", "%")), kv.get("blob")))
                if not t[2].startswith(("/w", "/cfg", "/home", "/usr/local", "/etc", "/usr/lib/locale", "/dev")): skip = True
            elif t[0] == "proc":
                kv = dict(x.split("=", 1) for x in t[1:] if "=" in x)
                procs.append({**kv, "argv": [], "env": {}, "in": unesc(kv["in"]) if "in" in kv else b""})
            elif l.startswith("  arg"): procs[-1]["argv"].append(unesc(t[3] if len(t) > 3 else "%"))
            elif l.startswith("  env"):
                k, _, v = unesc(t[3]).partition(b"="); procs[-1]["env"].setdefault(k, v)
            elif l.startswith("  in "): procs[-1]["in"] = unesc(t[3])
            elif l.startswith("= result"): res.append([t[2], None, None, t[3]])
            elif l.startswith("= out"): res[-1][1] = unesc(t[2])
            elif l.startswith("= err"): res[-1][2] = unesc(t[2])
            elif l.startswith("= entry"): entries.add(unesc(t[2]))
        if skip or len(procs) != 1 or procs[0].get("follow") or any(len(R + x[1]) > 3900 for x in nodes): continue
        # siblings in reverse order: tmpfs lists the newest first
        for e in os.listdir(R):
            if e not in (b"dev", b"lib", b"lib64", b"opt", b"usr"): shutil.rmtree(R + b"/" + e)
        shutil.rmtree(R + b"/usr")
        for d in tm: os.makedirs(root + "/" + d)
        kids = {}
        def need(path):
            par, _, b = path.rpartition(b"/")
            if (R + path) and path.decode("latin-1") in base or path in (b"", b"/dev", b"/usr", b"/usr/lib", b"/usr/local"): return
            k = kids.setdefault(par, [])
            if b not in k:
                k.append(b)
                need(par)
        for x in nodes: need(x[1])
        info = {}
        hard = []
        for x in nodes:
            if x[0] == "h": hard.append(x)
            else: info.setdefault(x[1], x)
        def make(par, only):
            for b in reversed(kids.get(par, [])):
                q = par + b"/" + b
                if q == b"/dev/null": continue
                x = info.get(q)
                r = R + q
                if x is None and any(h[1] == q for h in hard):
                    h = [h for h in hard if h[1] == q][0]
                    # placeholder keeps the listing position: a hard link to the final object is made in its turn if that exists already
                    try: os.link(R + h[2], r, follow_symlinks=False)
                    except OSError: late.append(h)
                    continue
                if x is None or x[0] == "d": os.mkdir(r, 0o755); make(q, only)
                elif x[0] == "f":
                    data = x[2]
                    if x[3]: data = open(HERE + "/sim/data/" + unesc(x[3]).decode(), "rb").read()
                    with open(r, "wb") as f: f.write(data)
                elif x[0] == "l": os.symlink(x[2], r)
                else: os.mkfifo(r)
        if any(x[0] == "p" and x[2] for x in info.values()): continue # a pipe without a writer
        late = []
        tops = sorted(kids)
        for t_ in [k for k in tops if k.decode("latin-1") in base or k in (b"", b"/usr", b"/usr/lib")]: make(t_, None)
        if late: continue
        pr = procs[0]
        env = {k: v for k, v in pr["env"].items()}
        cwd = unesc(pr["cwd"])
        try:
            def pre():
                os.chroot(R); os.chdir(cwd)
            q = subprocess.run(pr["argv"], executable="/opt/detox", input=pr["in"], capture_output=True, env=env, timeout=20, preexec_fn=pre)
        except (subprocess.TimeoutExpired, OSError, ValueError) as e:
            print("seed", seed, "not run:", e); continue
        got = set()
        for d in tm:
            for dp, dn, fn in os.walk(R + b"/" + d.encode()):
                for e in dn + fn: got.add((dp + b"/" + e)[len(R):])
        exp = {e for e in entries if not any(e == b.encode() for b in base) and e.split(b"/")[1] in (b"w", b"cfg", b"home", b"etc") or e.startswith((b"/usr/local/", b"/usr/lib/locale/"))}
        n += 1
        diff = []
        if got != exp: diff.append("tree: only simulated %r, only real %r" % (sorted(exp - got)[:4], sorted(got - exp)[:4]))
        if str(q.returncode) != res[0][0]: diff.append("status %s / %s" % (res[0][0], q.returncode))
        for w, a, b in (("stdout", res[0][1], q.stdout), ("stderr", res[0][2], q.stderr)):
            if a == b: continue
            k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            diff.append("%s %r / %r" % (w, a[max(0, k - 60):k + 300], b[max(0, k - 60):k + 300]))
        if diff:
            bad += 1
            if bad <= int(os.environ.get("SHOW", "8")): print("seed", seed, "simulated / real:", *diff, sep="\n   ")
    print(prop, n, "compared,", bad, "differ")

if __name__ == "__main__":
    if len(sys.argv) == 6:
        inner(sys.argv[4], *sys.argv[1:4], sys.argv[5])
    else:
        import build
        w = tempfile.mkdtemp(prefix="conform.")
        try:
            exe = build.build(w + "/b")
            os.makedirs(w + "/root/usr/local-detox")
            os.makedirs(w + "/root/usr/lib")
            src = build.REPO + "/src/"
            subprocess.run(["gcc", "-DHAVE_CONFIG_H", '-DDATADIR="/usr/local/share"', '-DSYSCONFDIR="/usr/local/etc"', "-DYY_NO_INPUT", "-DYY_NO_UNPUT", "-I" + build.SIM, "-I" + src, "-O2", "-w",
                            *[src + n + ".c" for n in build.sources()], "-o", w + "/root/usr/local-detox/detox"], check=True)
            r = subprocess.run(["unshare", "-Urm", sys.executable, os.path.abspath(__file__), *sys.argv[1:4], w + "/root", exe])
        finally:
            shutil.rmtree(w)
        sys.exit(r.returncode)

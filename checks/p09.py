"""P09: a generated source tree is complete and builds for every advertised limit."""
import hashlib, json, os, random, re, shlex, shutil, stat
from vt import core, build, trace
from vt.core import sh

GENS = ("ostei_generator", "ostei_deriv1_generator", "ostei_hrr_generator", "ostei_vrr_generator")


def option_sets(deep, rnd):
    th = lambda ve, vg, he, hg: "-ve %d -vg %d -he %d -hg %d" % (ve, vg, he, hg)
    s = [("-l 2 -p 2 -d 1", 2, 1),
         ("-l 2 -p 2 %s -d 1" % th(0, 20, 0, 20), 2, 1),
         ("-l 2 -p 1 %s -d 1" % th(0, rnd.choice((4, 6, 7)), 0, 20), 2, 1),
         ("-l 3 -p %d %s -d 0" % (rnd.choice((2, 3)), th(0, rnd.choice((6, 20)), 0, 20)), 3, 0),
         ("-l 2 -p 0 %s -d 0" % th(20, 20, 20, 20), 2, 0),
         ("-l 0 -p 0 -d 1", 0, 1), ("-l 0 -p 0 -d 0", 0, 0),
         ("-l 1 -p %d -d 1" % rnd.choice((0, 2, 9)), 1, 1)]
    for _ in range(24 if deep else 3):
        r = lambda: rnd.choice((0, 0, 1, 2, 3, 4, 20))
        l, d = rnd.choice(((1, 1), (2, 0), (1, 1)) if not deep else ((1, 1), (2, 0), (2, 1), (3, 0)))
        s.append(("-l %d -p %d %s -d %d" % (l, rnd.randrange(l + 2), th(r(), r(), r(), r()), d), l, d))
    if deep:
        s += [("-l 3 -p 3 %s -d 1" % th(0, 20, 0, 20), 3, 1), ("-l 4 -p 3 %s -d 0" % th(0, 20, 0, 20), 4, 0), ("-l 4 -p 4 -d 0", 4, 0)]
    seen, out = set(), []
    for x in s:
        if x[0] not in seen:
            seen.add(x[0]); out.append(x)
    return out


def nm(path):
    """{member: (defined, undefined)} of an object file or archive."""
    p = sh(["nm", "-A", "-P", path])
    defs, refs = set(), set()
    for line in p.stdout.splitlines():
        m = re.match(r"\S+?: (\S+) (\w)", line)
        if not m:
            continue
        if m.group(2) in "TDBRWVC":
            defs.add(m.group(1))
        elif m.group(2) in "Uvw":
            refs.add(m.group(1))
    return defs, refs


def runtime_symbols():
    """What the C runtime provides."""
    res = {"_GLOBAL_OFFSET_TABLE_"}
    for l in ("c", "m", "gcc_s"):
        f = sh(["gcc", "-print-file-name=lib%s.so.%s" % (l, {"c": 6, "m": 6, "gcc_s": 1}[l])]).stdout.strip()
        if os.path.exists(f):
            for line in sh(["nm", "-D", "-P", f]).stdout.splitlines():
                res.add(line.split()[0].split("@")[0])
    return res


def configure(ctx, tree, der=None, am=None):
    d = ctx.dir()
    cmd = ["cmake", "-S", tree, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
           "-DENABLE_TESTS=OFF", "-DSIMINT_VECTOR=scalar", "-DCMAKE_C_FLAGS_RELEASE=-O0", "-DCMAKE_CXX_FLAGS_RELEASE=-O0",
           "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"]
    if der is not None:
        cmd += ["-DSIMINT_MAXDER=%d" % der, "-DSIMINT_MAXAM=%d" % am]
    p = sh(cmd, check=False)
    return d, p


def limits_of(d, tree):
    src = os.path.join(d, "lim.c")
    open(src, "w").write('#include "simint/ostei/ostei_config.h"\n@@ SIMINT_OSTEI_MAXDER SIMINT_OSTEI_MAXAM\n')
    p = sh(["gcc", "-E", "-P", "-I" + os.path.join(d, "stage"), "-I" + tree, src], check=False)
    m = re.search(r"@@ (-?\d+) (-?\d+)", p.stdout)
    return (int(m.group(1)), int(m.group(2))) if m else (-9, -9)


def do_build(ctx, tree, l, d, der, am, runtime):
    """Real build of the library for one limit, linked as a whole."""
    out, p = configure(ctx, tree, der, am)
    ev = {"ev": "build", "d": d, "l": l, "der": d if der is None else der, "am": l if am is None else am,
          "configured": p.returncode == 0, "built": False, "gotder": -9, "gotam": -9, "unresolved": ["not built"]}
    log = p.stdout[-1500:]
    if p.returncode == 0:
        ev["gotder"], ev["gotam"] = limits_of(out, tree)
        q = sh(["ninja", "-C", out, "simint"], check=False)
        log = q.stdout[-1500:]
        if q.returncode == 0:
            ev["built"] = True
            main = os.path.join(out, "m.c")
            open(main, "w").write("int main(void){return 0;}\n")
            q = sh(["gcc", main, "-Wl,--whole-archive", os.path.join(out, "simint", "libsimint.a"), "-Wl,--no-whole-archive",
                    "-lm", "-o", os.path.join(out, "m")], check=False)
            ev["unresolved"] = sorted(set(re.findall(r"undefined reference to [`']([^`']+)'", q.stdout)))
            if q.returncode and not ev["unresolved"]:
                ev["unresolved"] = [q.stdout[-300:]]
    shutil.rmtree(out, ignore_errors=True)
    return ev, log


SYMS = {}


def symbols(ctx, out, units, flags):
    """Compiles the units (what is the same after preprocessing only once). {name: (defs, refs)}, errors"""
    def ninja(fn, cmds):
        rules = ["rule cc", "  command = $cmd"]
        for o, c in cmds.items():
            rules.append("build %s: cc\n  cmd = %s" % (o, " ".join(shlex.quote(x) for x in c).replace("$", "$$")))
        open(os.path.join(out, fn), "w").write("\n".join(rules) + "\n")
        q = sh(["ninja", "-C", out, "-f", fn, "-k", "0"], check=False)
        return q.stdout if q.returncode else ""
    err = ninja("pp.ninja", {n + ".i": c for n, c in units.items()})
    if err:
        return {}, err
    h = {n: hashlib.sha256(open(os.path.join(out, n + ".i"), "rb").read()).hexdigest() for n in units}
    todo = {}
    for n, x in h.items():
        if x not in SYMS and x not in todo:
            todo[x] = n
    err = ninja("cc.ninja", {n + ".o": flags + ["-O0", "-w", "-c", n + ".i", "-o", n + ".o"] for n in todo.values()})
    if err:
        return {}, err
    for x, n in todo.items():
        SYMS[x] = nm(os.path.join(out, n + ".o"))
    return {n: SYMS[x] for n, x in h.items()}, ""


def tree_events(ctx, tree, opts, l, d, runtime):
    """The tree as generated, and the dependencies between its compiled sources."""
    gen = os.path.join(tree, "simint", "ostei", "gen")
    files = sorted(f for f in os.listdir(gen) if f.endswith(".c"))
    lists = []
    for dd in range(d + 1):
        for ll in range(l + 1):
            f = os.path.join(gen, "filelist_d%d_%d" % (dd, ll))
            if os.path.exists(f):
                lists.append({"d": dd, "l": ll, "names": [os.path.basename(x) for x in dict.fromkeys(open(f).read().split())]})
    out, p = configure(ctx, tree)
    if p.returncode:
        ev = {"ev": "build", "d": d, "l": l, "der": d, "am": l, "configured": False, "built": False, "gotder": -9, "gotam": -9, "unresolved": []}
        return [ev], [(opts, "configure: " + p.stdout[-1500:])]
    cc = json.load(open(os.path.join(out, "compile_commands.json")))
    cmds = {os.path.realpath(c["file"]): c for c in cc}
    base_src = [f for f in cmds if f.endswith(".c") and "/ostei/gen/" not in f and "/simint/" in f and "/examples/" not in f]
    any_cmd = cmds[base_src[0]]

    def command(c, src, obj, stage=None):
        a = shlex.split(c["command"])
        res, k = [], 0
        while k < len(a):
            if a[k] in ("-o", "-c", "-MF", "-MT"):
                k += 2 if a[k] != "-c" else 1
                continue
            if a[k] == "-MD" or os.path.realpath(os.path.join(c["directory"], a[k])) == os.path.realpath(c["file"]):
                k += 1
                continue
            res.append(a[k])
            k += 1
        if stage:
            res = [x.replace(os.path.join(out, "stage"), stage) for x in res]
        return res + ["-O0", "-w", "-c", src, "-o", obj]
    units = {}                                   # name -> preprocessed file

    def unit(name, c, src, stage=None):
        units[name] = (command(c, src, "-", stage)[:-4] + ["-E", "-P", src, "-o", os.path.join(out, name + ".i")])
    for f in files:
        unit("g_" + f, any_cmd, os.path.join(gen, f))
    for e in lists:
        st = os.path.join(out, "st%d_%d" % (e["d"], e["l"]))
        shutil.copytree(os.path.join(out, "stage"), st)
        s = open(os.path.join(tree, "simint", "ostei", "ostei_config.h.in")).read()
        open(os.path.join(st, "simint", "ostei", "ostei_config.h"), "w").write(
            s.replace("@SIMINT_MAXAM@", str(e["l"])).replace("@SIMINT_MAXDER@", str(e["d"])))
        for f in base_src:
            unit("b%d_%d_%s" % (e["d"], e["l"], os.path.basename(f)), cmds[f], f, st)
    flags = [x for x in command(any_cmd, "-", "-")[:-4] if not x.startswith(("-I", "-D"))]
    syms, errors = symbols(ctx, out, units, flags)
    if errors:
        ev = {"ev": "build", "d": d, "l": l, "der": d, "am": l, "configured": True, "built": False, "gotder": d, "gotam": l, "unresolved": []}
        return [ev], [(opts, "compiling: " + errors[-1500:])]
    objs, gdefs = [], set()
    for f in files:
        de, re_ = syms["g_" + f]
        gdefs |= de
        objs.append({"file": f, "defs": sorted(de), "refs": sorted(re_ - runtime)})
    bases = []
    for e in lists:
        de, re_ = [], set()
        for f in base_src:
            x, y = syms["b%d_%d_%s" % (e["d"], e["l"], os.path.basename(f))]
            de += sorted(x)
            re_ |= y
        bases.append({"d": e["d"], "l": e["l"], "defs": de, "refs": sorted(re_ - runtime)})
    # prototypes
    src = os.path.join(out, "h.c")
    open(src, "w").write("".join('#include "simint/ostei/gen/%s"\n' % h for h in sorted(os.listdir(gen)) if h.endswith(".h")))
    p = sh(command(any_cmd, src, "-")[:-4] + ["-E", "-P", src], check=False)
    decl = [n for n in re.findall(r"\b(\w+)\s*\(", p.stdout) if n in gdefs]
    for lang in ("c", "c++"):
        q = sh([x for x in command(any_cmd, src, "-")[:-4] if not x.startswith("-std")] + ["-x", lang, "-Drestrict=__restrict__", "-fsyntax-only", src], check=False)
        if q.returncode:
            decl = ["(the generated headers do not compile as %s)" % lang] * 2
    shutil.rmtree(out, ignore_errors=True)
    return ([{"ev": "tree", "l": l, "d": d, "files": files, "lists": lists, "decl": decl},
             {"ev": "deps", "lists": lists, "objs": objs, "base": bases}],
            [(opts, "tree"), (opts, "deps")])


def wrappers(ctx, real, fail):
    """Generator programs that fail in a given situation. fail: {program: (condition, action)}"""
    d = ctx.dir()
    mark = os.path.join(d, "failures")
    for g in GENS:
        f = os.path.join(d, g)
        body = "#!/bin/bash\n"
        if g in fail:
            cond, action = fail[g]
            body += 'if [[ "$*" == *"%s"* ]]; then echo x >> %s; %s; fi\n' % (cond, mark, action)
        body += 'exec %s "$@"\n' % os.path.join(real, g)
        open(f, "w").write(body)
        os.chmod(f, 0o755)
    return d, mark


def failing_runs(ctx, b, rnd):
    """create.py with a generator program that fails."""
    ext = "-l 1 -p 1 -ve 0 -vg 20 -he 0 -hg 20 -d 1"
    q = lambda a: "-q " + " ".join(map(str, a))
    cases = [({}, 1), ({}, 8)]
    # an accepted failure of any kind of program, in any position
    for g, n in (("ostei_generator", 1), ("ostei_generator", 8), ("ostei_deriv1_generator", 1), ("ostei_deriv1_generator", 4)):
        am = tuple(rnd.randrange(2) for _ in range(4))
        cases.append(({g: (q(am), rnd.choice(("exit 1", "exit 100", "kill -9 $$", "kill -SEGV $$")))}, n))
    cases.append(({"ostei_generator": (q((0, 0, 0, 0)), "exit 3")}, 4))
    cases.append(({"ostei_generator": (q((1, 1, 1, 1)), "kill -ABRT $$")}, 3))
    cases.append(({"ostei_deriv1_generator": (q((1, 1, 1, 1)), "exit 2")}, 8))
    # output was written, the failure comes after
    real = b.generator()
    cases.append(({"ostei_generator": (q((1, 0, 0, 0)), os.path.join(real, "ostei_generator") + ' "$@"; exit 7')}, 2))
    cases.append(({"ostei_hrr_generator": ("-q", "exit 1")}, 1))
    cases.append(({"ostei_vrr_generator": ("-q", "exit 1")}, 1))
    cases.append(({"ostei_hrr_generator": ("-bra", "kill -9 $$")}, 1))
    cases.append(({"ostei_vrr_generator": ("-center_", "kill -9 $$")}, 1))
    evs, wh = [], []

    def one(c):
        fail, n = c
        d, mark = wrappers(ctx, real, fail)
        out = os.path.join(ctx.dir(), "out")
        p = b.create(out, ext, n, gen=d)
        k = len(open(mark).read().split()) if os.path.exists(mark) else 0
        shutil.rmtree(out, ignore_errors=True)
        return {"ev": "run", "failed": k, "rc": p.returncode}, (ext, "-n %d %s" % (n, json.dumps(fail)), p.stdout[-600:])
    for e, w in ctx.parallel(one, cases):
        evs.append(e); wh.append(w)
    # a program that is missing
    for g in GENS:
        d, _ = wrappers(ctx, real, {})
        os.remove(os.path.join(d, g))
        p = b.create(os.path.join(ctx.dir(), "out"), ext, 1, gen=d)
        evs.append({"ev": "run", "failed": 1, "rc": p.returncode}); wh.append((ext, "program %s missing" % g, p.stdout[-600:]))
    return evs, wh


def header_model(ctx, b, rnd):
    """Records what generator processes do to shared headers and explores all interleavings with TLC."""
    so = os.path.join(ctx.dir(), "hdrec.so")
    sh(["gcc", "-shared", "-fPIC", "-O1", "-w", os.path.join(core.HARNESS, "hdrec.c"), "-o", so, "-ldl"])
    opts = "-l 1 -p 9 -d 1"
    out = os.path.join(ctx.dir(), "out")
    log = os.path.join(ctx.dir(), "log")
    d = ctx.dir()
    real = b.generator()
    for g in GENS:
        f = os.path.join(d, g)
        open(f, "w").write('#!/bin/bash\nexport HDREC=%s LD_PRELOAD=%s\nexec %s "$@"\n' % (log, so, os.path.join(real, g)))
        os.chmod(f, 0o755)
    p = b.create(out, opts, 8, gen=d)
    if p.returncode:
        raise core.BuildBroken("create.py %s failed:\n%s" % (opts, p.stdout[-2000:]))
    procs = {}
    for line in open(log):
        pid, t, op, app, trunc, path, *data = line.rstrip("\n").split(" ")
        procs.setdefault((path, pid), []).append((int(t), op, int(app), int(trunc), bytes.fromhex(data[0] if data else "").decode()))
    nmodel = 0
    for path in sorted({k[0] for k in procs}):
        ps = [v for k, v in sorted(procs.items()) if k[0] == path]
        spans = sorted((v[0][0], v[-1][0]) for v in ps)
        overlap = any(spans[i + 1][0] < spans[i][1] for i in range(len(spans) - 1))
        # programs with the most operations and of every shape
        shape = lambda v: tuple((o[1], o[2], o[3], o[4].count(";")) for o in v)
        pick, seen = [], set()
        for v in sorted(ps, key=lambda v: -len(v)):
            if shape(v) not in seen or len(pick) < 3:
                seen.add(shape(v)); pick.append(v)
        pick = pick[:4]
        progs, decls = [], []
        for i, v in enumerate(pick):
            text = "".join(o[4] for o in v)
            cuts, pos = set(), 0
            for o in v:
                pos += len(o[4]); cuts.add(pos)
            # tokens: prototypes, split where a write ends
            ends = [m.end() for m in re.finditer(";", text)]
            bounds, dl = sorted(cuts | set(ends)), []
            prog, k, start, cur = [], 0, 0, []
            tokat = {}
            for n, e in enumerate(bounds):
                if text[start:e].strip():
                    tokat[e] = "%d.%d" % (i, n)
                    cur.append(tokat[e])
                if e in ends and cur:
                    dl.append(cur); cur = []
                start = e
            pos = 0
            for o in v:
                new = pos + len(o[4])
                prog.append({"op": o[1], "app": bool(o[2]), "trunc": bool(o[3]),
                             "toks": [tokat[e] for e in bounds if pos < e <= new and e in tokat]})
                pos = new
            progs.append(prog)
            decls += dl
        f = os.path.join(ctx.dir(), "progs.json")
        json.dump({"procs": progs, "decls": decls, "head": ["head"], "limit": len(progs) if overlap else 1}, open(f, "w"))
        r = ctx.tlc("Header", "SPECIFICATION Spec\nINVARIANT Intact\nCHECK_DEADLOCK FALSE\n", env={"PROGS": f})
        nmodel += r.distinct
        if r.violated:
            ctx.violation("generator processes running in parallel can spoil %s: an interleaving of the recorded writes loses or splits a prototype" % os.path.basename(path),
                          detail={"programs": progs, "tlc": r.out[-3000:]})
        elif not r.ok:
            raise core.CheckError("Header model failed:\n" + r.out[-2000:])
    ctx.info["header_processes_recorded"] = len(procs)
    ctx.info["header_model_states"] = nmodel
    return out, opts


def run(ctx):
    rnd = random.Random(ctx.seed)
    deep = not ctx.quick
    b = build.Builder(ctx)
    b.generator()
    runtime = runtime_symbols()
    events, where = failing_runs(ctx, b, rnd)
    ctx.log("%d runs with failing generators" % len(events))
    htree, hopts = header_model(ctx, b, rnd)
    ctx.log("header model")
    sets = option_sets(deep, rnd)
    trees = []
    for opts, l, d in sets:
        out = os.path.join(ctx.dir(), "out")
        over = opts.startswith("-l 1 ") and not any(t[4] for t in trees)
        if over:
            # a run over the output of an earlier, larger one leaves nothing of it behind
            b.create(out, "-l 2 -p 2 -ve 0 -vg 20 -he 0 -hg 20 -d 1", 8)
        n = rnd.choice((1, 2, 8)) if l < 2 else 8
        p = b.create(out, opts, n)
        events.append({"ev": "run", "failed": 0, "rc": p.returncode}); where.append((opts, "plain run -n %d" % n, p.stdout[-600:]))
        if p.returncode == 0:
            trees.append((opts, l, d, out, over))
    ctx.log("%d trees generated" % len(trees))
    trees.append((hopts, 1, 1, htree, False))
    for opts, l, d, out, over in trees:
        ev, wh = tree_events(ctx, out, opts, l, d, runtime)
        ctx.log("compiled", opts)
        events += ev; where += wh
    ctx.log("dependencies recorded")
    # real builds: the highest limit, a lower one, and limits beyond the advertised ones
    todo = []
    small = [t for t in trees if t[1] <= 1]
    for opts, l, d, out, over in trees if deep else [trees[1]] + small:
        todo.append((opts, l, d, out, None, None))
        if l or d:
            todo.append((opts, l, d, out, rnd.randrange(d + 1), rnd.randrange(l + 1)))
    o, l, d, t, _ = trees[1]
    todo += [(o, l, d, t, d + 1, l), (o, l, d, t, d, l + 1), (o, l, d, t, 0, l), (o, l, d, t, d, 1), (o, l, d, t, 1, 0)]
    for opts, l, d, out, der, am in todo:
        ev, log = do_build(ctx, out, l, d, der, am, runtime)
        events.append(ev); where.append((opts, "limits d=%s l=%s" % (der, am), log))
    ctx.log("%d builds" % len(todo))
    for e, w in list(zip(events, where))[:3]:
        ctx.sample({"event": {k: v for k, v in e.items() if k in ("ev", "failed", "rc")}, "where": w[:2]})

    def describe(e, w):
        if e["ev"] == "run":
            return "create.py (%s) %s: %d generator programs failed, exit status %d" % (w[0], w[1], e["failed"], e["rc"])
        if e["ev"] == "build":
            return "building the tree of (%s) with %s: configured=%s built=%s limits=(%d,%d) unresolved=%s %s" % (
                w[0], w[1], e["configured"], e["built"], e["gotder"], e["gotam"], e["unresolved"][:5], w[-1][-300:])
        if e["ev"] == "tree":
            files = set(e["files"])
            miss = sorted({n for x in e["lists"] for n in x["names"]} - files)
            top = set(next((x["names"] for x in e["lists"] if (x["d"], x["l"]) == (e["d"], e["l"])), []))
            dup = sorted({n for n in e["decl"] if e["decl"].count(n) > 1})
            return "tree of (%s): listed but not generated %s; generated but not listed %s; declared twice %s; %d lists, %d prototypes" % (
                w[0], miss[:5], sorted(files - top)[:5], dup[:5], len(e["lists"]), len(e["decl"]))
        for x in e["lists"]:
            base = next(y for y in e["base"] if (y["d"], y["l"]) == (x["d"], x["l"]))
            objs = [o for o in e["objs"] if o["file"] in x["names"]]
            defs = set(base["defs"]).union(*[o["defs"] for o in objs]) if objs else set(base["defs"])
            un = sorted((set(base["refs"]).union(*[o["refs"] for o in objs])) - defs)
            if un:
                return "tree of (%s): the library for order %d, angular momentum %d refers to undefined routines %s" % (w[0], x["d"], x["l"], un[:5])
        return "tree of (%s): a routine is missing or defined twice" % w[0]
    trace.validate_events(ctx, "TreeTrace", events, where, chunk=6, describe=describe)
    ctx.info["option_sets"] = [s[0] for s in sets]
    ctx.info["builds"] = len(todo)
    ctx.assumptions += ["the interleaving model treats one write(2) with O_APPEND as atomic"]

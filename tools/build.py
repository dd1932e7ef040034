#!/usr/bin/env python3
"""Builds esmini from /repo's working tree into /verif/build/<variant>, instrumented.

Sources are globbed (the way the project's own CMake files do), so a refactoring that adds or
removes a .cpp file is followed.  Objects are keyed by ccache on content, so a rebuild after a
small change only compiles what changed, wherever the tree's mtimes come from.

usage: build.py VARIANT [target...]      VARIANT: asan | tsan | plain
"""
import fcntl
import glob
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ESMINI_REPO", "/repo")
M = REPO + "/EnvironmentSimulator/Modules"
L = REPO + "/EnvironmentSimulator/Libraries"
A = REPO + "/EnvironmentSimulator/Applications"
X = REPO + "/externals"

COMMON = "-std=gnu++17 -pthread -fPIC -g1 -w -fno-omit-frame-pointer -DFMT_SHARED -DESMINI_VERIF"
VARIANTS = {
    # address + undefined together; reports are fatal
    "asan": ("-O1 -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS",
             "-fsanitize=address,undefined -shared-libsan"),
    "tsan": ("-O1 -fsanitize=thread", "-fsanitize=thread"),
    # standard library assertions on; used through a shared library by the behavioural monitors
    "plain": ("-O1 -D_GLIBCXX_ASSERTIONS", ""),
}


def sources():
    def g(pat, drop=()):
        return [f for f in sorted(glob.glob(pat)) if os.path.basename(f) not in drop]

    out = {}
    out["core"] = (
        g(M + "/CommonMini/*.cpp", ("version.cpp", "_version.cpp"))
        + [X + "/yaml/yaml.cpp"]
        + g(M + "/Controllers/*.cpp", ("ControllerSumo.cpp",))
        + g(M + "/PlayerBase/*.cpp", ("Plot.cpp",))
        + g(M + "/RoadManager/*.cpp")
        + [X + "/pugixml/pugixml.cpp"]
        + g(M + "/ScenarioEngine/OSCTypeDefs/*.cpp")
        + g(M + "/ScenarioEngine/SourceFiles/*.cpp", ("OSIReporter.cpp", "OSITrafficCommand.cpp"))
        + g(M + "/ScenarioEngine/SourceFiles/*.c")
        + [VERIF + "/harness/version.cpp"]
    )
    out["selib"] = [L + "/esminiLib/esminiLib.cpp"]
    out["rmlib"] = [L + "/esminiRMLib/esminiRMLib.cpp"]
    out["esmini"] = g(A + "/esmini/*.cpp")
    rep = A + "/replayer/"
    out["dat2csv"] = [f for f in (rep + "dat2csv.cpp", rep + "Replay.cpp", rep + "DatLogger.cpp") if os.path.exists(f)]
    out["odrplot"] = g(A + "/odrplot/*.cpp")
    return out


def targets(src):
    h = VERIF + "/harness/"
    t = {
        "esmini": src["core"] + src["esmini"],
        "dat2csv": src["core"] + src["dat2csv"],
        "odrplot": src["core"] + src["odrplot"],
        "libesmini.so": src["core"] + src["selib"] + src["rmlib"],
    }
    for drv, lib in (("se_driver", "selib"), ("rm_driver", "rmlib")):
        if os.path.exists(h + drv + ".cpp"):
            t[drv] = src["core"] + src[lib] + [h + drv + ".cpp"]
    if os.path.exists(h + "unit_driver.cpp"):
        t["unit_driver"] = src["core"] + [h + "unit_driver.cpp"]
    if os.path.exists(h + "race_driver.cpp"):
        t["race_driver"] = src["core"] + src["selib"] + [h + "race_driver.cpp"]
    return t


def build(variant, wanted, log=sys.stderr):
    t0 = time.time()
    cflags, ldflags = VARIANTS[variant]
    bdir = f"{VERIF}/build/{variant}"
    os.makedirs(bdir + "/obj", exist_ok=True)
    incs = [
        M + "/CommonMini", M + "/Controllers", M + "/PlayerBase", M + "/RoadManager", M + "/ViewerBase",
        M + "/ScenarioEngine/OSCTypeDefs", M + "/ScenarioEngine/SourceFiles",
        L + "/esminiLib", L + "/esminiRMLib", A + "/replayer",
        X + "/pugixml", X + "/yaml", X + "/expr", VERIF + "/harness",
    ]
    inc = " ".join("-I" + i for i in incs)
    src = sources()
    tg = targets(src)
    wanted = wanted or list(tg)
    with open(f"{VERIF}/build/lock.{variant}", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        lines = ["ninja_required_version = 1.5",
                 f"rule cxx\n  command = ccache clang++ {COMMON} {cflags} {inc} -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
                 f"rule cc\n  command = ccache clang -fPIC -g1 -w {cflags} {inc} -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
                 f"rule lshared\n  command = clang++ -shared -pthread {ldflags} -fuse-ld=lld @$out.rsp -lfmt -ldl -o $out\n  rspfile = $out.rsp\n  rspfile_content = $in",
                 f"rule link\n  command = clang++ -pthread {ldflags} -fuse-ld=lld @$out.rsp -lfmt -ldl -o $out\n  rspfile = $out.rsp\n  rspfile_content = $in"]
        objs = {}
        for t in wanted:
            os_ = []
            for f in tg[t]:
                if f not in objs:
                    o = f"{bdir}/obj/" + f.strip("/").replace("/", "__") + ".o"
                    objs[f] = o
                    lines.append(f"build {o}: {'cc' if f.endswith('.c') else 'cxx'} {f}")
                os_.append(objs[f])
            lines.append(f"build {bdir}/{t}: {'lshared' if t.endswith('.so') else 'link'} " + " ".join(os_))
        text = "\n".join(lines) + "\n"
        nf = bdir + "/build.ninja"
        if not os.path.exists(nf) or open(nf).read() != text:
            open(nf, "w").write(text)
        env = dict(os.environ, CCACHE_DIR=VERIF + "/build/ccache", CCACHE_MAXSIZE="4G", CCACHE_SLOPPINESS="",
                   CCACHE_NOHASHDIR="1", CCACHE_BASEDIR=REPO)
        for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CPATH"):
            env.pop(k, None)
        # a compiler that crashed (seen once under memory pressure) gets another two attempts, with fewer jobs
        for jobs in ([], ["-j4"], ["-j1"]):
            r = subprocess.run(["ninja", "-C", bdir, "-f", nf] + jobs + [f"{bdir}/{t}" for t in wanted],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
            if r.returncode == 0:
                break
    if r.returncode:
        log.write(r.stdout[-6000:] + "\n")
        raise RuntimeError(f"build of {variant} {wanted} failed")
    log.write(f"[build] {variant} {' '.join(wanted)}: {time.time()-t0:.1f} s\n")
    return {t: f"{bdir}/{t}" for t in wanted}


if __name__ == "__main__":
    build(sys.argv[1], sys.argv[2:])

#!/usr/bin/env python3
"""Plant bugs: `plant.py FILE [ID...]`. FILE defines BUGS = {id: dict(property, edits=[(file, old, new)], needs, breaks, demo)}.
Each is applied to a scratch copy of /repo, built, tested, demonstrated, and, if all is as it should be, kept under /verif/seeded."""
import json, os, runpy, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
SEED = os.path.join(os.path.dirname(HERE), "seeded")
COPY = "/tmp/plantcopy"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/vp/mplconfig", PROJ_NETWORK="OFF", OMP_NUM_THREADS="2")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, env=ENV, **kw)


def build():
    sh("rm -f quakemigrate/core/src/qmlib*.so; /opt/venv/bin/python -W ignore setup.py -q build_ext --inplace --force; rm -rf build", cwd=COPY)




def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:] or list(bugs)
    for bid in want:
        b = bugs[bid]
        shutil.rmtree(COPY, ignore_errors=True)
        subprocess.check_call(["cp", "-a", "/repo", COPY])
        d = os.path.join(SEED, bid)
        tmp = "/tmp/plantdemo"
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.copytree(os.path.join(HERE, "seedkit"), tmp, ignore=shutil.ignore_patterns("__pycache__"))
        open(os.path.join(tmp, "demo.py"), "w").write("from kit import *\n\n" + b["demo"].strip() + "\n")
        os.chmod(os.path.join(tmp, "demo.sh"), 0o755)
        r0 = sh(["bash", os.path.join(tmp, "demo.sh")], cwd=COPY)
        cfile = False
        bad = None
        for f, old, new in b["edits"]:
            p = os.path.join(COPY, f)
            s = open(p).read()
            if s.count(old) != 1:
                bad = f"{f}: {s.count(old)} matches"
                break
            open(p, "w").write(s.replace(old, new))
            cfile |= f.endswith((".c", ".h"))
        if bad:
            print(bid, "EDIT", bad)
            continue
        if cfile:
            build()
        diff = sh(["git", "diff"], cwd=COPY).stdout
        rt = sh("/opt/venv/bin/python -m pytest -q --rootdir=%s -p no:cacheprovider --ignore=tests/test_benchmarks.py tests "
                "-k 'test_import or test_onsets_simple or test_smooth_coa or test_trigger_thresholds or test_merge_stream'" % COPY, cwd=COPY)
        r1 = sh(["bash", os.path.join(tmp, "demo.sh")], cwd=COPY)
        # the comments and no-op edits are checked by vcheck itself
        ok = r0.returncode == 0 and r1.returncode != 0 and rt.returncode == 0
        print(bid, "OK" if ok else "BAD", "demo", r0.returncode, r1.returncode, "tests", rt.returncode, (r1.stdout + r1.stderr).strip().splitlines()[-1:])
        if not ok:
            print(r0.stdout[-600:], r0.stderr[-1500:], rt.stderr[-800:])
            continue
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(tmp, d)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.rmtree(COPY, ignore_errors=True)


main()

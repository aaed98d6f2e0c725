"""C22 on the real code: the two commands and the three entry points, in a scratch directory"""
import os
import runpy
import sys
from pathlib import Path

import numpy as np
import yaml

from .base import Bad, harness, need, need_equal


def write(name, keep):
    """the input file"""
    if name.endswith((".nxs", ".h5")):
        import h5py
        with h5py.File(name, "w") as f:
            f["/e/Q"], f["/e/I"], f["/e/S"] = (np.linspace(0.1, 1, 9) * k for k in (1, 2, 0.1))
        keep["pathDict"] = {"Q": "/e/Q", "I": "/e/I", "ISigma": "/e/S"}
    else:
        with open(name, "w") as f:
            for q in np.linspace(0.1, 1, 9):
                f.write(f"{q};{2 * q};{0.1 * q}\n")
        keep["csvargs"] = {"sep": ";", "header": None, "names": ["Q", "I", "ISigma"]}


def gen(rng):
    return dict(data=str(rng.choice(["in.csv", "in.nxs", "in.h5"])),
                result=str(rng.choice(["out.nxs", "out.nxs", "same", "dotdot", "link", "dirlink", "relative",
                                       "datalink", "absent"])),
                delete=bool(rng.integers(2)), cwd=bool(rng.integers(2)), idx=int(rng.integers(0, 5)),
                threads=int(rng.choice([0, 0, 1, 3, -1])), cores=[None, 0, 2, 7][rng.integers(4)],
                missing=[None, None, None, "data", "read", "run"][rng.integers(6)],
                names=[str(rng.choice(["r.yaml"] * 5 + ["r.yml", "r", "yaml", "r.yaml.bak"])),
                       str(rng.choice(["o.yaml"] * 5 + ["o.yml", "o.txt", "o.yaml.txt", "o"]))],
                entry=str(rng.choice(["class", "class", "runner", "main"])))


FIX = [dict(data="in.nxs", result=r, delete=True, cwd=True, idx=1, threads=0, cores=2, missing=None,
            names=["r.yaml", "o.yaml"], entry="class") for r in ("same", "dotdot", "link", "dirlink", "out.nxs",
                                                                 "datalink")]


def files(d="."):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out[p] = (os.readlink(p) if os.path.islink(p) else None,
                      Path(p).read_bytes() if os.path.exists(p) else None)
    return out


@harness("C22", gen, fixed=FIX, rule="result file new, existing, or the data file under the same or another "
         "name; delete flag; missing or misnamed inputs; thread counts; called directly and through the scripts")
def cli_optimize(case):
    from mcsas3 import cli_tools, mc_data_1d, mc_hat
    os.makedirs("sub")
    data, read, run = Path(case["data"]), Path(case["names"][0]), Path(case["names"][1])
    keep = {"nbins": 0}
    write(str(data), keep)
    read.write_text(yaml.safe_dump(keep))
    opt = dict(nRep=1, nContrib=3, maxIter=1, fitParameterLimits={"radius": "auto"}, staticParameters={})
    if case["cores"] is not None:
        opt["nCores"] = case["cores"]
    run.write_text(yaml.safe_dump(opt))
    given = Path(data)
    kind = case["result"]
    if kind in ("out.nxs", "relative"):
        import h5py
        with h5py.File("out.nxs", "w") as f:
            f["/old"] = 1
    if kind == "same":
        res = Path(data)
    elif kind == "dotdot":
        res = Path("sub") / ".." / data
    elif kind == "link":
        os.symlink(data, "ln.nxs")
        res = Path("ln.nxs")
    elif kind == "dirlink":
        os.symlink(".", "here")
        res = Path("here") / data
    elif kind == "datalink":
        os.rename(data, "real.nxs" if data.suffix == ".nxs" else "real" + data.suffix)
        os.symlink("real" + data.suffix, data)
        res = Path("real" + data.suffix)
    elif kind == "absent":
        res = Path("new.nxs")
    elif kind == "relative":
        res = Path("sub/../out.nxs")
    else:
        res = Path("out.nxs")
    if case["cwd"]:
        res = res.absolute()
    same = kind in ("same", "dotdot", "link", "dirlink", "datalink")
    if same and data.suffix == ".csv":
        return          # cannot be a result file
    miss = case["missing"]
    if miss:
        os.remove({"data": given, "read": read, "run": run}[miss])
    bad = miss is not None or read.suffix != ".yaml" or run.suffix != ".yaml"
    before = files()
    seen = {}
    old = mc_hat.McHat.run, mc_data_1d.McData1D.store, mc_data_1d.McData1D.__init__

    def frun(self, measData, filename, resultIndex=None):
        seen["run"] = (self.nCores, resultIndex if resultIndex is not None else self.resultIndex.nxsEntryPoint,
                       measData, filename, str(self.resultIndex.nxsEntryPoint))
        seen["files"] = files()

    def fstore(self, filename, path=None):
        seen["store"] = (filename, str(self.resultIndex.nxsEntryPoint))
        seen["before"] = files()
        return old[1](self, filename) if path is None else old[1](self, filename, path)

    kw = dict(dataFile=given, resultFile=res, readConfigFile=read, runConfigFile=run,
              resultIndex=case["idx"], deleteIfExists=case["delete"], nThreads=case["threads"])
    argv = ["prog", "-f", str(given), "-F", str(read), "-r", str(res), "-R", str(run), "-i", str(case["idx"]),
            "-t", str(case["threads"])] + ["-d"] * case["delete"]
    oldargv, ohist = sys.argv, cli_tools.McSAS3_cli_histogram
    hist = []
    exc = None
    try:
        mc_hat.McHat.run, mc_data_1d.McData1D.store = frun, fstore
        sys.argv = argv
        try:
            if case["entry"] == "class":
                cli_tools.McSAS3_cli_optimize(**kw)
            elif case["entry"] == "runner":
                from mcsas3 import mcsas3_cli_runner
                mcsas3_cli_runner.main()
            else:
                sys.argv = argv + ["-H", "h.yaml"]
                cli_tools.McSAS3_cli_histogram = lambda **k: hist.append(k)
                runpy.run_module("mcsas3", run_name="__main__")
        except SystemExit as e:
            if e.code not in (0, None):
                exc = e
        except Exception as e:
            exc = e
    finally:
        mc_hat.McHat.run, mc_data_1d.McData1D.store = old[:2]
        sys.argv, cli_tools.McSAS3_cli_histogram = oldargv, ohist
    if bad:
        need(exc is not None, "missing or misnamed input accepted")
        need_equal(sorted(files()), sorted(before), "files after a refused command")
        need(files() == before, "a refused command changed a file")
        return
    if exc is not None:
        raise Bad(f"legal input refused: {type(exc).__name__}: {exc}")
    need("run" in seen and "store" in seen, "a step was not run")
    b = seen["before"]
    gone = [f for f in before if f not in b]
    target = "./out.nxs" if kind in ("out.nxs", "relative") else None
    want = [target] if case["delete"] and target else []
    need(gone == want, f"deleted before storing: {gone}, expected {want}")
    for f in before:
        if f not in want:
            need(b.get(f) == before[f], f"{f} changed before storing")
    later = files()
    need(all(f in later for f in b), "deleted later")
    from mcsas3.mc_hdf import ResultIndex
    e = str(ResultIndex(case["idx"]).nxsEntryPoint)
    nc, ri, md, fn, he = seen["run"]
    need(ri in (case["idx"], e) or str(ri) == e, f"index of the run: {ri}")
    need(he == e and seen["store"][1] == e, "index of a step")
    need(Path(fn).samefile(res) and Path(seen["store"][0]).samefile(res), "result file of a step")
    default = mc_hat.McHat.nCores
    exp = case["threads"] if case["threads"] > 0 else (default if case["cores"] is None else case["cores"])
    need(nc == exp, f"{nc} cores, expected {exp}")
    need_equal(md["Q"][0], np.linspace(0.1, 1, 9), "data of the fit")
    if case["entry"] == "main":
        need(len(hist) == 1 and hist[0]["resultIndex"] == case["idx"] and
             hist[0]["resultFile"] == Path(res).absolute(), f"histogramming called with {hist}")


def genh(rng):
    return dict(idx=int(rng.integers(0, 5)), pdf=bool(rng.integers(2)), name=str(rng.choice(
        ["h.yaml"] * 4 + ["h.yml", "h"])), miss=bool(rng.integers(5) == 0), nrange=int(rng.integers(1, 4)),
        entry=str(rng.choice(["class", "script"])))


@harness("C22", genh, weight=0.4, rule="histogramming command with and without an earlier plot; missing or "
         "misnamed configuration")
def cli_histogram(case):
    from mcsas3 import cli_tools, mc_plot
    from mcsas3.mc_data_1d import McData1D
    import pandas as pd
    md = McData1D(df=pd.DataFrame(dict(Q=np.linspace(0.1, 1, 9), I=np.ones(9), ISigma=np.ones(9) * 0.1)),
                  nbins=0, resultIndex=case["idx"])
    md.store(Path("res.nxs"))
    Path("keep.pdf").write_text("x")
    if case["pdf"]:
        Path("res.pdf").write_text("old")
    rr = [dict(parameter=f"p{i}", nBin=i) for i in range(case["nrange"])]
    if not case["miss"]:
        Path(case["name"]).write_text("---\n".join(yaml.safe_dump(r) for r in rr))
    bad = case["miss"] or not case["name"].endswith(".yaml")
    seen = {}
    old = cli_tools.McAnalysis, mc_plot.McPlot.resultCard

    def ana(inputFile, measData, histRanges, store=False, resultIndex=1):
        seen["a"] = (inputFile, measData, histRanges, store, resultIndex)
        return "result"

    before = files()
    oldargv = sys.argv
    exc = None
    try:
        cli_tools.McAnalysis = ana
        mc_plot.McPlot.resultCard = lambda self, r, saveHistFile=None: seen.setdefault("p", (r, saveHistFile))
        try:
            if case["entry"] == "class":
                cli_tools.McSAS3_cli_histogram(resultFile=Path("res.nxs"), histConfigFile=Path(case["name"]),
                                               resultIndex=case["idx"])
            else:
                from mcsas3 import mcsas3_cli_histogrammer
                sys.argv = ["x", "-r", "res.nxs", "-H", case["name"], "-i", str(case["idx"])]
                mcsas3_cli_histogrammer.main()
        except SystemExit as e:
            exc = e if e.code not in (0, None) else None
        except Exception as e:
            exc = e
    finally:
        cli_tools.McAnalysis, mc_plot.McPlot.resultCard = old
        sys.argv = oldargv
    if bad:
        need(exc is not None, "missing or misnamed configuration accepted")
        need(files() == before, "a refused command changed a file")
        return
    if exc is not None:
        raise Bad(f"legal input refused: {type(exc).__name__}: {exc}")
    now = files()
    need({f: x for f, x in before.items() if f != "./res.pdf"} == {f: x for f, x in now.items()
                                                                  if f != "./res.pdf"}, "other files changed")
    f, d, t, s, i = seen["a"]
    need(Path(f).samefile("res.nxs") and i == case["idx"] and s, "arguments of the analysis")
    need_equal(d["Q"][0], np.linspace(0.1, 1, 9), "data of the analysis")
    need(t.to_dict("records") == rr, "ranges of the analysis")

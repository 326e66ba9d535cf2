"""Running TLC: model checking of a specification, and validation of batches of traces."""
import json, os, re, subprocess, tempfile, shutil, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"

class TlcError(Exception):
    pass

def jars():
    out = [JAR]
    d = os.path.dirname(JAR)
    for f in sorted(os.listdir(d)):
        if f.endswith(".jar") and os.path.join(d, f) != JAR:
            out.append(os.path.join(d, f))
    return ":".join(out)

def tlc(module, cfg_text, env=None, workers=8, timeout=800, heap="6g", extra=()):
    """Runs TLC on spec/<module>.tla with the given configuration text; returns the output."""
    d = tempfile.mkdtemp(prefix="tlc-")
    try:
        cfg = os.path.join(d, "m.cfg")
        open(cfg, "w").write(cfg_text)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss512m", "-Djava.io.tmpdir=" + d, "-DTLA-Library=" + SPEC, "-cp", jars(), "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE",
               "-config", cfg] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout, cwd=d)
        except subprocess.TimeoutExpired as x:
            raise TlcError("TLC timed out on %s" % module)
        return r.returncode, r.stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)

def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

def model_check(module, cfg_text=None, **kw):
    if cfg_text is None:
        cfg_text = open(os.path.join(SPEC, module + ".cfg")).read()
    rc, out = tlc(module, cfg_text, **kw)
    ok = "Model checking completed. No error has been found" in out
    if not ok:
        raise TlcError("model checking of %s did not succeed:\n%s" % (module, out[out.find("Starting..."):][:3000]))
    g, dd = stats(out)
    return {"module": module, "transitions": g, "states": dd}

def validate(module, traces_path, cfg_text, workers=8, **kw):
    """Returns (set of accepted ids, generated, distinct)."""
    rc, out = tlc(module, cfg_text, env={"TRACES": os.path.abspath(traces_path)}, workers=workers, **kw)
    acc = set(int(x) for x in re.findall(r'<<"ACCEPT", (\d+)>>', out))
    if "Model checking completed. No error has been found" not in out:
        raise TlcError("trace validation with %s failed:\n%s" % (module, out[out.find("Starting..."):][:3000]))
    g, dd = stats(out)
    return acc, g, dd

def locate(module, trace, cfg_text, **kw):
    """How far a single rejected trace gets: index (1-based) of the first event no behaviour explains."""
    fd, p = tempfile.mkstemp(suffix=".json")
    os.write(fd, (json.dumps(trace) + "\n").encode())
    os.close(fd)
    try:
        rc, out = tlc(module, cfg_text + "\nINVARIANT HighWater\n", env={"TRACES": p}, workers=1, **kw)
        m = re.findall(r'<<"POS", (\d+)>>', out)
        return max(map(int, m)) if m else None
    finally:
        os.unlink(p)

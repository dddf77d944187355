"""Running TLC."""

import json
import os
import re
import shutil
import subprocess
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


def classpath():
    d = "/opt/veriftools/tla"
    jars = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".jar")]
    return ":".join(jars)


def tlc(module, cfg, env=None, workers=4, timeout=600, heap="2g", extra=(), cwd=None):
    """Run TLC on spec/module.tla; returns (returncode, output)."""
    meta = tempfile.mkdtemp(prefix="vftlc")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xmx" + heap, "-Xss512m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=%s" % e.get("VF_TIER", "4"),
           "-Djava.io.tmpdir=" + meta, "-cp", classpath(), "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfg, *extra, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=cwd or SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        return None, (ex.stdout or b"").decode() if isinstance(ex.stdout, bytes) else (ex.stdout or "")
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def counts(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(d.replace(",", "")), int(g.replace(",", ""))


def validate(module, traces, workdir, tag, workers=1, timeout=600, progress=False, env=None):
    """Validate traces (dictionaries with an "id"); returns
    (accepted ids, distinct states, generated states, output)."""
    f = os.path.join(workdir, "trace_%s.ndjson" % tag)
    with open(f, "w") as h:
        for t in traces:
            h.write(json.dumps(t, separators=(",", ":")) + "\n")
    e = {"TRACE_FILE": f, "PROGRESS": "1" if progress else "0"}
    e.update(env or {})
    rc, out = tlc(module, module + ".cfg", e, workers, timeout)
    if rc is None:
        raise TlcError("TLC timed out (%s)\n%s" % (tag, out[-2000:]))
    ok = "Model checking completed. No error has been found." in out
    if not ok:
        raise TlcError("TLC failed on %s (rc %s)\n%s" % (f, rc, out[:6000]))
    acc = set(re.findall(r'<<"ACCEPT", "([^"]+)">>', out))
    d, g = counts(out)
    os.unlink(f)
    return acc, d, g, out

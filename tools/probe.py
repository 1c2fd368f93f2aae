"""C20: are the public types Send and Sync? (the compiler is the monitor)"""
import os
import shutil
import subprocess
import tempfile

HEAD = "#![allow(warnings)]\nextern crate json;\n"
CONTROL = HEAD + "fn ok<T: 'static>() {}\nfn main() { ok::<json::JsonValue>(); ok::<json::object::Object>(); ok::<json::number::Number>(); ok::<json::short::Short>(); ok::<json::Error>(); }\n"
PROBE = CONTROL.replace("T: 'static", "T: Send + Sync + 'static")


def rlib(ck, d, extra=()):
    env = ck.base_env("checked")
    p = subprocess.run(["rustc", "+stable", "--edition", "2018", "--crate-name", "json", "--crate-type", "rlib", "--cap-lints", "allow",
                        "-o", os.path.join(d, "libjson.rlib"), *extra, os.path.join(ck.REPO, "src", "lib.rs")],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return None if p.returncode == 0 else p.stdout.decode("utf8", "replace")


def compile(ck, d, src, out, extra=(), edition="2018", timeout=300):
    env = ck.base_env("checked")
    p = subprocess.run(["rustc", "+stable", "--edition", edition, "--cap-lints", "allow", "--extern", "json=" + os.path.join(d, "libjson.rlib"),
                        "-o", out, *extra, src], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return None if p.returncode == 0 else p.stdout.decode("utf8", "replace")


def send_sync(ck):
    """None, or what is wrong."""
    d = tempfile.mkdtemp(prefix="probe-", dir=ck.OUT)
    try:
        if rlib(ck, d):
            return None  # the harness build reports this
        for name, src in (("control", CONTROL), ("probe", PROBE)):
            with open(os.path.join(d, name + ".rs"), "w") as f:
                f.write(src)
        if compile(ck, d, os.path.join(d, "control.rs"), os.path.join(d, "control"), ["--emit=metadata"]):
            return None
        e = compile(ck, d, os.path.join(d, "probe.rs"), os.path.join(d, "probe"), ["--emit=metadata"])
        if e and "E0277" in e:
            return "a value cannot be sent to or shared with threads: " + " | ".join(l for l in e.splitlines() if l.startswith("error"))[:600]
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)

"""seed.py <definition.py>: makes /verif/seeded/<id> from a definition and confirms it in a scratch copy.

definition: ID, PROP, EDITS=[(file, old, new[, count])], NEEDS, BREAKS, MAIN (demo's main.rs, or None with DEMO= shell text)"""
import sys, os, subprocess, json, shutil, tempfile
d = {}
exec(open(sys.argv[1]).read(), d)
R = "/tmp/seedrepo"
sh = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.exists(R):
    sh("cp -a /repo /tmp/seedrepo")
sh("git -C /tmp/seedrepo fetch -q /repo && git -C /tmp/seedrepo checkout -qf FETCH_HEAD && git -C /tmp/seedrepo checkout -- .")
for e in d["EDITS"]:
    p = f"{R}/geokit/src/{e[0]}"
    s = open(p).read()
    n = e[3] if len(e) > 3 else 1
    assert s.count(e[1]) == n, (e[0], s.count(e[1]))
    open(p, "w").write(s.replace(e[1], e[2]))
out = f"/verif/seeded/{d['ID']}"
os.makedirs(out, exist_ok=True)
open(out + "/patch.diff", "w").write(sh(f"git -C {R} diff").stdout)
DEMO = d.get("DEMO") or '''#!/bin/bash
# cwd: the repository. Builds a small program against the library and runs its assertions.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"; cp "$here/main.rs" "$t/src/main.rs"; cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
geokit = { path = "$repo/geokit" }
@DEPS@
X
cd "$t" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" RUSTFLAGS='@FLAGS@' timeout 250 cargo run -q --offline
'''
open(out + "/demo.sh", "w").write(DEMO.replace("@FLAGS@", d.get("FLAGS", "")).replace("@DEPS@\n", d.get("DEPS", "")))
os.chmod(out + "/demo.sh", 0o755)
if d.get("MAIN"):
    open(out + "/main.rs", "w").write(d["MAIN"].lstrip())
json.dump({"property": d["PROP"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
r0 = sh(f"bash {out}/demo.sh", cwd="/repo")
print("demo clean:", r0.returncode, r0.stdout[-600:] if r0.returncode else "")
r1 = sh(f"bash {out}/demo.sh", cwd=R)
print("demo patched:", r1.returncode, [l for l in r1.stdout.splitlines() if "rror" in l or "left" in l or "right" in l or "panicked" in l][:4])
b = sh(". /opt/vp/env.sh; cd /tmp/seedrepo; export CARGO_TARGET_DIR=/tmp/seedrepo/target; cargo test --workspace --no-fail-fast --offline 2>&1", cwd=R)
st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
fails = [l for l in b.stdout.splitlines() if l.startswith("test ") and l.rstrip().endswith("FAILED")]
bad = []
for l in fails:
    n = l[5:].split(" ...")[0].strip()
    if any(s.endswith(n) or n in s for s in st):
        bad.append(n)
print("stable tests failing:", bad, "others", len(fails), "| compiled:", "error: could not compile" not in b.stdout)
sh("git -C /tmp/seedrepo checkout -- .")
ok = r0.returncode == 0 and r1.returncode != 0 and not bad and "could not compile" not in b.stdout and "could not compile" not in r1.stdout
print("KEEP" if ok else "REJECT")
if not ok:
    shutil.rmtree(out)

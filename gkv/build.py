"""Building: the MIR dump of /repo's current tree and the native replay binary."""
import os, subprocess, sys, time, shutil, glob

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(HOME, ".build")
GROUPS = ["gkv_xyz", "gkv_line", "gkv_fp"]
BASE_CFG = "--cfg geokit_verif"


class BuildError(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=800):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout


def driver():
    rc, out = sh(["cargo", "+nightly", "build", "--offline", "-q", "--target-dir", B + "/driver"], cwd=HOME + "/driver")
    if rc:
        raise BuildError("driver: " + out[-3000:])


def cfgs(groups):
    return BASE_CFG + "".join(" --cfg " + g for g in groups)


def mir(features, tag, groups=GROUPS):
    """dump MIR; returns path"""
    os.makedirs(B, exist_ok=True)
    driver()
    outp = f"{B}/mir-{tag}.json"
    if os.path.exists(outp):
        os.remove(outp)
    env = {
        "RUSTFLAGS": cfgs(groups) + " -Zalways-encode-mir -Zmir-opt-level=0 -Awarnings",
        "CARGO_TARGET_DIR": B + "/mir",
        "RUSTC_WRAPPER": B + "/driver/debug/gkv-driver",
        "GKV_OUT": outp,
        "GKV_ALLOW": HOME + "/driver/allow.txt",
        "CARGO_INCREMENTAL": "0",
    }
    # the final crate is always re-checked (its dump depends on /repo and on the environment)
    for d in glob.glob(B + "/mir/debug/.fingerprint/proofs-*") + [B + "/mir/debug/build/proofs"]:
        shutil.rmtree(d, ignore_errors=True)
    rc, out = sh(["cargo", "+nightly", "check", "--offline", "--lib", "-q", "--no-default-features", "--features", features], env, HOME + "/proofs")
    if rc or not os.path.exists(outp):
        raise BuildError("MIR extraction: " + out[-4000:])
    return outp


def native(features, groups=GROUPS):
    env = {"RUSTFLAGS": cfgs(groups) + " -Awarnings", "CARGO_TARGET_DIR": B + "/native"}
    rc, out = sh(["cargo", "build", "--offline", "--release", "-q", "--bin", "native", "--no-default-features", "--features", features], env, HOME + "/proofs")
    if rc:
        raise BuildError("native: " + out[-4000:])
    return B + "/native/release/native"


def all_builds(features, tag):
    """both artefacts; if the guarded hooks no longer fit the code, retry without each group"""
    import concurrent.futures as cf

    def go(groups):
        with cf.ThreadPoolExecutor(2) as ex:
            a = ex.submit(mir, features, tag, groups)
            b = ex.submit(native, features, groups)
            return a.result(), b.result()

    try:
        return go(GROUPS) + ("",)
    except BuildError as e:
        first = e
    for g in GROUPS:
        try:
            return go([x for x in GROUPS if x != g]) + (f"hook group {g} does not compile against this tree; left out",)
        except BuildError:
            pass
    try:
        return go([]) + ("no hook group compiles against this tree; all left out",)
    except BuildError:
        raise first

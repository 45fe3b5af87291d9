import json, os, subprocess
have = [f"C{i:02d}" for i in range(1, 21) if os.path.exists(f"/verif/proofs/src/c{i:02d}.rs")]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep", "^verif:"], stdout=subprocess.PIPE, text=True).stdout.split()
NOTE, TECH = {}, {}
exec(open("/verif/tools/notes.py").read()) if os.path.exists("/verif/tools/notes.py") else None
M = {
    "version": 1,
    "setup_cmd": "python3-vt gkv/setup.py",
    "hooks": {"guard": "cfg geokit_verif (rustc --cfg), with sub-cfgs gkv_xyz and gkv_line", "enable": "RUSTFLAGS='--cfg geokit_verif --cfg gkv_xyz --cfg gkv_line'", "source_commits": hook},
    "checks": [
        {"property": p, "quick_cmd": f"python3-vt gkv/check.py {p} quick", "thorough_cmd": f"python3-vt gkv/check.py {p} thorough",
         "technique": "contract-based deductive verification: contracts on the real functions, MIR of /repo symbolically executed over all paths; " + TECH.get(p, "obligations discharged by algebraic normalisation, interval arithmetic and z3") + "; counterexamples replayed natively",
         "level": "proof", "level_note": NOTE.get(p, "see DESIGN.md; undischarged obligations are listed in the evidence as bounded")}
        for p in have],
    "not_applicable": [{"property": f"C{i:02d}", "reason": "contracts not written yet"} for i in range(1, 21) if f"C{i:02d}" not in have],
    "notes": "checks rebuild the MIR and the native replay binary from /repo on every run (into /verif/.build)",
}
if not M["not_applicable"]:
    M["not_applicable"] = []
json.dump(M, open("/verif/MANIFEST.json", "w"), indent=1)

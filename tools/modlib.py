"""regenerate the module list of proofs/src/lib.rs"""
import os, re
d = "/verif/proofs/src/"
ms = [m for m in ["c%02d" % i for i in range(1, 21)] if os.path.exists(d + m + ".rs")]
s = open(d + "lib.rs").read()
head = s[: s.index("pub mod spec;") + len("pub mod spec;")]
out = head + "\n" + "".join(f'#[cfg(feature = "{m}")]\npub mod {m};\n' for m in ms)
out += "\npub fn registry() -> Vec<(&'static str, &'static [(&'static str, fn())])> {\n    vec![\n"
out += "".join(f'        #[cfg(feature = "{m}")]\n        ("{m}", {m}::ALL),\n' for m in ms) + "    ]\n}\n"
open(d + "lib.rs", "w").write(out)

#!/usr/bin/env python3
"""mirror.py REPO DST: copies the part of REPO that builds without hdf5, plotly and vtkio to DST/crate, the converter's
table tools to DST/conv, and to DST/read that part with the two file readers and the converters, built against the stand-ins of
hdf5 and vtkio in harness (without the Python class attribute of TData). Files are copied as they are; only the declarations of the left-out modules and crates are commented
out (line numbers stay), and git dependencies in Cargo.toml. A file is rewritten only when its content changes."""
import os, re, sys

DROP = {"src/lib.rs": ["plotly", "converter", "plotting", "pylib"], "src/datamanager.rs": ["pdata", "tdata"]}
SKIP = ("src/main.rs", "src/converter", "src/plotting", "src/pylib", "src/datamanager/pdata.rs", "src/datamanager/tdata.rs")
READ = ("src/datamanager/pdata.rs", "src/datamanager/tdata.rs", "src/converter")
CONV = ("src/converter/convertertools",)


def put(path, text, kept):
    kept.add(path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path, encoding="utf-8", newline="").read() == text:
        return
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(text)


def mirror(repo, dst):
    get = lambda rel: open(os.path.join(repo, rel), encoding="utf-8", newline="").read()
    kept = set()
    toml = re.sub(r"^([\w-]+\s*=.*\bgit\s*=)", r"# \1", get("Cargo.toml"), flags=re.M)
    toml = re.sub(r"^crate-type\s*=.*$", 'crate-type = ["rlib"]', toml, flags=re.M)
    put(dst + "/crate/Cargo.toml", toml + "\n[workspace]\n", kept)
    put(dst + "/read/Cargo.toml", toml + "".join(f"\n[dependencies.{d}]\npath = \"../../../harness/{d}\"\n" for d in ("hdf5", "vtkio")) + "\n[workspace]\n", kept)
    for top, _, names in os.walk(os.path.join(repo, "src")):
        for name in sorted(names):
            rel = os.path.relpath(os.path.join(top, name), repo)
            if not name.endswith(".rs"):
                continue
            if rel.startswith(CONV):
                put(dst + "/conv/" + os.path.basename(rel), get(rel), kept)
            text = get(rel)
            if rel.startswith(READ):
                put(dst + "/read/" + rel, re.sub(r"^(#\[pyclass[^\n]*\]|use pyo3::[^;\n]*;)", r"// \1", text, flags=re.M), kept)
            if rel.startswith(SKIP):
                continue
            both = text
            for mod in DROP.get(rel, ()):
                out = lambda s: re.sub(rf"^((?:pub )?(?:mod {mod};|use {mod}::[^;\n]*;|extern crate {mod};))", r"// \1", s, flags=re.M)
                text = out(text)
                both = out(both) if mod in ("plotly", "plotting", "pylib") else both
            put(dst + "/crate/" + rel, text, kept)
            put(dst + "/read/" + rel, both, kept)
    for top, _, names in os.walk(dst):
        for name in names:
            path = os.path.join(top, name)
            if path.endswith(".rs") and path not in kept:
                os.remove(path)


if __name__ == "__main__":
    mirror(sys.argv[1], sys.argv[2])

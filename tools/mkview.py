#!/usr/bin/env python3
"""mkview.py [--full] REPO OUT: a cargo workspace in OUT that is a view of REPO's library crates without what
needs unavailable git dependencies (the garbling crates). Files are copied, and rewritten only when
their content changed, so cargo rebuilds exactly what a change in REPO affects (by content, not by
time stamp). Filters take lines out or narrow module declarations; nothing is added in their place.
The filters are those of the sandbox's own build script, so the view builds whenever that does.
"""
import os
import re
import sys

#: The full view keeps everything and takes stand-ins (../../stubs) for the missing dependencies.
FULL = sys.argv[1] == "--full"
REPO, WS = sys.argv[-2], sys.argv[-1]
#: Needed by the modules that are left out, or by the left-out workspace members.
STUBS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "stubs")
MISSING_DEPS = {"fancy-garbling", "scuttlebutt"}


def drop_mods(*names):
    mod = re.compile(r"^\s*(?:pub(?:\([a-z]+\))?\s+)?mod (?:%s);\s*$" % "|".join(names))

    def f(text):
        out = []
        for line in text.splitlines(keepends=True):
            if mod.match(line):
                k = len(out)
                while k and out[k - 1].strip().startswith("#["):
                    k -= 1
                    out[k] = "\n"  # the attributes of that declaration
                line = "\n"
            out.append(line)
        return "".join(out)

    return f


def drop_items(text, rep3):
    """Takes out the top-level items that match (rustfmt ends an item with a closing line in column 0).

    From a use with a list only the names that mention it go. Nested modules (mod tests) are kept as they are.
    """
    out, item = [], []

    def flush():
        body = "".join(line for line in item if not line.lstrip().startswith("//"))
        if not rep3.search(body):
            out.extend(item)
        elif re.search(r"^(?:pub(?:\([a-z]+\))? )?use [^{}]*\{[^{}]*\};", body, flags=re.M):
            head, names, tail = re.match(r"(.*?\{)([^{}]*)(\};.*)", body, flags=re.S).groups()
            if not rep3.search(head):
                kept = [n.strip() for n in names.split(",") if n.strip() and not rep3.search(n)]
                new = head + ", ".join(kept) + tail
                out.append("\n" * (len(item) - new.count("\n")) + new)
            else:
                out.extend(["\n"] * len(item))
        else:
            out.extend(["\n"] * len(item))

    for line in text.splitlines(keepends=True):
        item.append(line)
        opener = line.startswith(("#", "/"))
        if not opener and (line.strip() == "" or re.match(r"\S.*;\s*$", line) or re.match(r"\}[;,]?\s*$", line)
                           or re.match(r"\S.*\}\s*$", line)):
            # A blank line ends an item only outside braces, and the body is indented: see whether one is open.
            text_ = "".join(l for l in item if not l.lstrip().startswith("//"))
            if line.strip() == "" and text_.strip() and not text_.strip().startswith("#!"):
                continue
            flush()
            item = []
    flush()
    return "".join(out)


def drop_rep3_items(text):
    return drop_items(text, re.compile(r"rep3", re.I))


def root_manifest(text):
    vm = '"co-circom/circom-mpc-vm",\n ' + "".join('"%s",\n ' % t for t in NOIR) if FULL else ""
    keep = vm + '"co-circom/co-circom-types",\n "co-circom/co-groth16",\n "co-circom/co-plonk",\n "mpc-core",\n "mpc-net",\n'
    if FULL:
        text = re.sub(r"^(acir|acvm|brillig|noirc-abi|noirc-artifacts)\s*=.*$",
                      lambda m: '%s = { path = "%s/noir/%s", package = "%s" }' % (m[1], STUBS, m[1], m[1].replace("-", "_")), text, flags=re.M)
    return re.sub(r"members\s*=\s*\[.*?\]", lambda _: "members = [\n %s]" % keep, text, count=1, flags=re.S)


def core_manifest(text):
    return "".join(
        line for line in text.splitlines(keepends=True)
        if re.split(r"[\s.=]", line, maxsplit=1)[0] not in MISSING_DEPS
    )


def protocols(text):
    """Of rep3 and rep3_ring only the submodules that reach no garbling code."""
    text = drop_mods("bridges")(text)
    text = re.sub(r"^pub mod rep3;$", " ".join(REP3.split()), text, flags=re.M)
    return re.sub(r"^pub mod rep3_ring;$", "pub mod rep3_ring { pub mod ring; }", text, flags=re.M)


REP3 = """pub mod rep3 {
    pub mod arithmetic { mod ops; pub(super) mod types; }
    pub mod binary { mod ops; pub(super) mod types; }
    pub mod id;
    pub mod network;
    pub mod pointshare { mod ops; pub(super) mod types; }
    pub mod yao { pub mod bristol_fashion; }
    pub use arithmetic::types::Rep3PrimeFieldShare;
    pub use binary::types::Rep3UintShare;
    pub use pointshare::types::Rep3PointShare;
}"""


def poseidon2(text):
    text = drop_mods("rep3", "poseidon2_circom_accelerator", "poseidon2_shamir_circom_accelerator")(text)
    return re.sub(r"^pub use poseidon2_(?:shamir_)?circom_accelerator::.*\n", "\n", text, flags=re.M)


def bristol(text):
    return re.sub(r"^impl From<CircuitExecutionError> for fancy_garbling::.*?^\}\n", lambda m: "\n" * m[0].count("\n"), text, flags=re.M | re.S)


FILTERS = {
    "Cargo.toml": root_manifest,
    "mpc-core/Cargo.toml": core_manifest,
    "mpc-core/src/protocols.rs": protocols,
    "mpc-core/src/gadgets/merkle_tree/mod.rs": drop_mods("rep3"),
    "mpc-core/src/gadgets/poseidon2/mod.rs": poseidon2,
    "mpc-core/src/protocols/rep3/yao/bristol_fashion/mod.rs": bristol,
    "co-circom/co-circom-types/src/lib.rs": drop_rep3_items,
    "co-circom/co-groth16/src/lib.rs": drop_rep3_items,
    "co-circom/co-groth16/src/groth16.rs": drop_rep3_items,
    "co-circom/co-groth16/src/mpc.rs": drop_rep3_items,
    "co-circom/co-plonk/src/lib.rs": drop_rep3_items,
    "co-circom/co-plonk/src/mpc.rs": drop_rep3_items,
}


def core_manifest_full(text):
    return re.sub(r"^(fancy-garbling|scuttlebutt)\s*=.*$", lambda m: '%s = { path = "%s/%s" }' % (m[1], STUBS, m[1]), text, flags=re.M)


#: The parts of co-noir that run on stand-ins for Noir's own crates.
NOIR = ["co-noir/" + t for t in ("noir-types", "co-noir-types", "co-noir-common", "co-brillig", "co-acvm", "co-builder", "ultrahonk", "co-ultrahonk")]
if FULL:
    FILTERS = {"Cargo.toml": root_manifest, "mpc-core/Cargo.toml": core_manifest_full}

TREES = (["co-circom/circom-mpc-vm"] + NOIR if FULL else []) + ["co-circom/co-circom-types", "co-circom/co-groth16", "co-circom/co-plonk", "mpc-core", "mpc-net"]
#: The libraries of co-circom and co-noir (../stubs/co-*-lib build them without the programs).
EXTRA = ["co-circom/co-circom/src/lib.rs", "co-noir/co-noir/src/lib.rs"]
#: Only the libraries: no tests, examples or benches.
SKIP_DIRS = {"target", "tests", "examples", "benches"}


def strip_targets(text):
    return re.sub(r"^\[\[(?:bench|example|test)\]\]\n(?:[^\[\n].*\n)*\n?", "", text, flags=re.M)


def main():
    want = {"Cargo.toml"}
    for tree in TREES:
        top = os.path.join(REPO, tree)
        for dirpath, dirs, files in os.walk(top):
            rel = os.path.relpath(dirpath, REPO)
            if rel == tree:
                dirs[:] = [d for d in dirs if d not in SKIP_DIRS]
            want.update(os.path.join(rel, n) for n in files)
    if FULL:
        want.update(EXTRA)
    for rel in sorted(want):
        src, dst = os.path.join(REPO, rel), os.path.join(WS, rel)
        with open(src, "rb") as f:
            data = f.read()
        if rel in FILTERS:
            data = FILTERS[rel](data.decode()).encode()
        if rel.endswith("Cargo.toml"):
            data = strip_targets(data.decode()).encode()
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        try:
            with open(dst, "rb") as f:
                same = f.read() == data
        except FileNotFoundError:
            same = False
        if not same:
            with open(dst, "wb") as f:
                f.write(data)
    for dirpath, dirs, files in os.walk(WS, topdown=False):
        for name in files:
            if os.path.relpath(os.path.join(dirpath, name), WS) not in want:
                os.remove(os.path.join(dirpath, name))
        if dirpath != WS and not os.listdir(dirpath):
            os.rmdir(dirpath)


if __name__ == "__main__":
    sys.exit(main())

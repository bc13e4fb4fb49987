#!/usr/bin/env python3
"""Mutation campaign (development aid; no check uses it).

  mutate.py list OUT.json            enumerate single-line mutants of /repo/src
  mutate.py lane MUTANTS OUT K N     run every N-th mutant, starting at K:
                                     compile, existing tests, then the checks

`lane` is run inside `unshare -Urm` with copies mounted over /repo and /verif.
"""
import json, os, re, subprocess, sys, random, glob

SKIP = {"src/test_util.rs", "src/error.rs"}
ORDER = {
 "block_cache": ["C14", "C15", "C13", "C03"], "block_group": ["C09", "C12", "C16", "C01", "C15"],
 "block_size": ["C16", "C03", "C01"], "checksum": ["C12", "C09"], "dir.rs": ["C07", "C18"],
 "dir_block": ["C12", "C06"], "dir_entry.rs": ["C06", "C17", "C01"], "dir_entry_hash": ["C07", "C16"],
 "dir_htree": ["C07", "C01", "C02", "C12"], "features": ["C16"], "file.rs": ["C05", "C04", "C13"],
 "file_type": ["C09", "C06"], "format": ["C17"], "inode": ["C09", "C12", "C04", "C01"],
 "extents": ["C04", "C12", "C01", "C02"], "file_blocks": ["C04", "C01", "C02"], "block_map.rs": ["C04", "C10", "C11", "C02"],
 "journal": ["C10", "C11", "C16", "C01", "C03"], "label": ["C17"], "uuid": ["C17"], "lib.rs": ["C19", "C15", "C04", "C08"],
 "metadata": ["C09"], "path": ["C17", "C08"], "reader": ["C20"], "resolve": ["C08", "C19"], "superblock": ["C16", "C12", "C09"],
 "iters": ["C06", "C14", "C13"],
}
# Fail without any change here (the test data is a git-lfs pointer).
BROKEN = {"superblock::tests::" + x for x in ("test_bad_superblock_checksum", "test_blocks_per_group_zero", "test_invalid_inode_size",
  "test_no_checksum_seed", "test_superblock", "test_too_many_block_groups", "test_unknown_incompat_flags")} | {
  "tests::test_invalid_ext4_data", "tests::test_load_errors"}
ALL = ["C%02d" % i for i in range(1, 21)]
QUICK = dict(C01=3500, C02=2500, C03=5000, C04=4000, C05=10000, C06=5000, C07=1500, C08=900, C09=6000, C10=3500, C11=1200,
             C12=2000, C13=2200, C14=6000, C15=10000, C16=2500, C17=2500, C18=2400, C19=700, C20=2400)

OPS = [
 (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
 (r" < ", " > "), (r" > ", " < "),
 (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "),
 (r" << ", " >> "), (r" >> ", " << "), (r" & ", " | "), (r" \| ", " & "), (r" \^ ", " | "), (r" \+= ", " -= "), (r" -= ", " += "),
 (r"checked_add\(", "checked_sub("), (r"checked_sub\(", "checked_add("), (r"wrapping_add\(", "wrapping_sub("),
 (r"saturating_add\(", "saturating_sub("), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
 (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.\.=", ".."), (r"read_u16le", "read_u16be_"), 
 (r"\bis_some\(\)", "is_none()"), (r"\bis_none\(\)", "is_some()"), (r"\bany\(", "all("), (r"\ball\(", "any("),
 (r"\bSome\(([a-z_]+)\)$", "None"), (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"),
 (r"\.is_dir\(\)", ".is_symlink()"), (r"to_le", "to_be"), (r"from_le", "from_be"), (r"from_be", "from_le"),
]

def sites():
    out = []
    os.chdir("/repo")
    for f in sorted(glob.glob("src/**/*.rs", recursive=True)):
        if f in SKIP: continue
        lines = open(f).read().split("\n")
        depth_cfg = None
        for i, l in enumerate(lines):
            t = l.strip()
            if t.startswith("#[cfg(") and "test" in t and i + 1 < len(lines) and lines[i + 1].startswith("mod "):
                break
            if not t or t.startswith(("//", "use ", "#", "pub use", "mod ", "impl", "pub struct", "pub enum", "struct", "trait", "pub trait", "where", "assert", "debug_assert")):
                continue
            code = l.split(" //")[0]
            muts = []
            for a, b in OPS:
                for m in re.finditer(a, code):
                    if "->" in code[max(0, m.start() - 1):m.end() + 1]: continue
                    muts.append(code[:m.start()] + m.expand(b) + code[m.end():])
            for m in re.finditer(r"(?<![\w.\"'])(0x[0-9a-fA-F_]+|\d[\d_]*)(?![\w\"'.])", code):
                s = m.group(1)
                if re.search(r"u(8|16|32|64)$|usize$", s): continue
                v = int(s.replace("_", ""), 0)
                for w in {v + 1, max(v - 1, 0), 0} - {v}:
                    muts.append(code[:m.start()] + (hex(w) if s.startswith("0x") else str(w)) + code[m.end():])
            m = re.match(r"^(\s*(?:\} else )?if )([^{]*)( \{)$", code)
            if m and not m.group(2).startswith("let "):
                muts += [m.group(1) + x + m.group(3) for x in ("false", "true", "!(" + m.group(2) + ")")]
            if re.match(r"^\s*(self\.|\*?[a-z_.]+(\[[^]]*\])? [-+|&]?= |[a-z_.]+\().*;$", code) and code.count("(") == code.count(")"):
                muts.append(re.match(r"^\s*", code).group(0) + ";")
            seen = set()
            for x in muts:
                if x != code and x not in seen:
                    seen.add(x)
                    out.append({"file": f, "line": i + 1, "old": l, "new": x})
    return out

def sh(cmd, timeout, env=None):
    try:
        p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, ""

def order(f):
    first = []
    for k, v in ORDER.items():
        if k in f:
            first += [x for x in v if x not in first]
    return first + [x for x in ALL if x not in first]

def lane(mf, outf, k, n, div):
    ms = json.load(open(mf))
    done = {}
    if os.path.exists(outf):
        for l in open(outf):
            r = json.loads(l); done[r["n"]] = 1
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", PATH="/root/.cargo/bin:/usr/sbin:/usr/bin:/sbin:/bin",
               CARGO_PROFILE_DEV_DEBUG="line-tables-only")
    out = open(outf, "a")
    for n_, m in enumerate(ms):
        if n_ % n != k or n_ in done: continue
        path = "/repo/" + m["file"]
        src = open(path).read()
        ls = src.split("\n")
        assert ls[m["line"] - 1] == m["old"]
        ls[m["line"] - 1] = m["new"]
        open(path, "w").write("\n".join(ls))
        r = dict(m, n=n_)
        try:
            rc, o = sh("cd /repo && timeout -k 2 40 cargo test -p ext4-view --features std --no-fail-fast --lib --tests --offline -- --test-threads 2", 60, env)
            failed = set(re.findall(r"^test (\S+) \.\.\. FAILED", o, re.M))
            if "could not compile" in o:
                r["res"] = "compile"
            elif o.count("test result:") != 2 or failed - BROKEN:
                r["res"] = "tests"
            else:
                r["res"] = "survived"
                rc, o = sh("cd /verif && ./build.sh", 300, os.environ)
                if rc != 0:
                    r["res"] = "buildfail"
                else:
                    first = [x for k2, v2 in ORDER.items() if k2 in m['file'] for x in v2]
                    for c in order(m["file"]):
                        rc, o = sh("cd /verif && HARNESS_WORKERS=2 ./target/release/harness %s --tier quick --cases %d --budget 200" % (c, max(QUICK[c] // (div if c in first else div * 4), 30)), 260, os.environ)
                        if rc == 1:
                            r["res"] = "caught"; r["by"] = c
                            r["what"] = [x for x in o.split("\n") if "VIOLATION" in x or "what" in x][:2]
                            break
                        if rc != 0:
                            r.setdefault("odd", []).append((c, rc, o[-300:]))
        finally:
            open(path, "w").write(src)
        out.write(json.dumps(r) + "\n"); out.flush()

if sys.argv[1] == "list":
    s = sites(); random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1).shuffle(s)
    json.dump(s, open(sys.argv[2], "w")); print(len(s))
else:
    lane(sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6]))

#!/usr/bin/env python3
"""Compare generated filesystems, as an independent reader (e2fsprogs) sees
them, with the models they were generated from. Validates harness/src/mkfs.rs
(development aid; no check depends on it).

  crosscheck.py KIND FIRST LAST
"""
import os, re, subprocess, sys, tempfile
os.environ["PATH"] += ":/usr/sbin:/sbin"
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
kind, a, b = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
bad = tot = files = ents = links = hts = 0

def fnv(d):
    h = 0xcbf29ce484222325
    for x in d:
        h = ((h ^ x) * 0x100000001b3) & (2**64 - 1)
    return "%016x" % h

def db(img, cmds):
    p = subprocess.run(["debugfs", "-c", "-f", "-", img], input="\n".join(cmds).encode() + b"\n", stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.stdout

with tempfile.TemporaryDirectory() as d:
    for seed in range(a, b):
        img = d + "/t.img"
        env = dict(os.environ, STRICT="1", RAW="1")
        c = subprocess.run([root + "/target/release/harness", "img", kind, str(seed), img], env=env, stderr=subprocess.PIPE)
        cfg = c.stderr.decode().strip()
        def fail(*x):
            global bad
            bad += 1
            print("DIFF", kind, seed, *x, "|", cfg)
        replay = ""
        if kind == "journal":
            # Let e2fsck replay the journal (into this copy).
            replay = subprocess.run(["e2fsck", "-y", "-E", "journal_only", img], stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout.decode(errors="replace")
        I, F, T, E = {}, {}, {}, {}
        for l in open(img + ".model"):
            w = l.split()
            if w[0] == "I": I[int(w[1])] = w[2:]
            if w[0] == "F": F[int(w[1])] = w[2]
            if w[0] == "T": T[int(w[1])] = bytes.fromhex(w[2] if len(w) > 2 else "")
            if w[0] == "E": E.setdefault(int(w[1]), set()).add((int(w[2]), bytes.fromhex(w[4])))
        cmds = []
        for i in F: cmds.append("dump <%d> %s/f%d" % (i, d, i))
        db(img, cmds)
        for i in F:
            tot += 1; files += 1
            p = "%s/f%d" % (d, i)
            try:
                data = open(p, "rb").read(); os.unlink(p)
            except FileNotFoundError:
                fail("file", i, "not dumped", I[i]); continue
            if len(data) != int(I[i][3]) or fnv(data) != F[i]: fail("file", i, len(data), I[i], fnv(data), F[i])
        for i in I:
            o = db(img, ["stat <%d>" % i]).decode("latin1")
            m = re.search(r"Mode:\s+(\d+)", o); u = re.search(r"User:\s+(-?\d+)\s+Group:\s+(-?\d+)", o); s = re.search(r"Size: (\d+)", o)
            tot += 1
            if not m or not u or int(m.group(1), 8) != int(I[i][0], 8) & 0o7777 or int(u.group(1)) & 0xffffffff != int(I[i][1]) or int(u.group(2)) & 0xffffffff != int(I[i][2]):
                fail("inode", i, I[i], o[:300])
            if s and int(s.group(1)) != int(I[i][3]): fail("size", i, I[i], s.group(1))
            if i in T:
                links += 1
                if len(T[i]) < 60:
                    q = re.search(r'Fast link dest: "(.*)"', o, re.S)
                    if not q: fail("link", i, T[i], o[:400])
                else:
                    p = d + "/l%d" % i
                    db(img, ["dump <%d> %s" % (i, p)])
                    if not os.path.exists(p) or open(p, "rb").read() != T[i]: fail("link", i, T[i])
        for i in E:
            o = db(img, ["ls -p <%d>" % i])
            got = set()
            for l in o.split(b"\n"):
                m = re.match(rb"^(?:debugfs: .*)?/(\d+)/\d*/-?\d*/-?\d*/(.*)/[^/]*/$", l)
                if m and int(m.group(1)): got.add((int(m.group(1)), m.group(2)))
            want = {x for x in E[i] if re.match(rb"^[ -~]+$", x[1]) and b"/" not in x[1]}
            ents += len(want); tot += 1
            got = {x for x in got if re.match(rb"^[ -~]+$", x[1])}
            got = {(a_, n) for a_, n in got}
            if not want <= got or len(got - want) > 0:
                fail("dir", i, "missing", sorted(want - got)[:3], "extra", sorted(got - want)[:3])
        o = subprocess.run(["e2fsck", "-fn", img], stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout.decode(errors="replace")
        for l in o.split("\n"):
            if re.search(r"HTREE|htree|checksum|extent|corrupt|Directory inode|Duplicate|invalid|illegal", l, re.I) and not re.search(r"bitmap|could be|NULL terminated|[Ii]llegal.*block|CLEARED|extra size|i_blocks|Special|has extents|extended attribute|counts? wrong|Duplicate entry", l):
                hts += 1
                print("FSCK", kind, seed, l[:160], "|", cfg)
        for x in os.listdir(d): os.unlink(d + "/" + x)
print("%s: %d comparisons, %d files, %d names, %d links, %d differ, %d fsck lines" % (kind, tot, files, ents, links, bad, hts))

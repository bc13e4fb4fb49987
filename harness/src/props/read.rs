//! C04 (contents), C05 (cursor), C09 (metadata).

use crate::ctx::Ctx;
use crate::gen::*;
use crate::mkfs::*;
use crate::model::*;
use crate::mon::Mon;
use crate::ops::*;
use crate::rng::{mix, Rng};
use crate::Prop;
use ext4_view::Ext4;
use std::io::{Read, Seek, SeekFrom};

pub const WF: &[&str] = &[
    "the harness's image writer (harness/src/mkfs.rs) produces well-formed filesystems according to the ext4 on-disk format",
    "library built from /repo with debug assertions, overflow checks and SanitizerCoverage edge counters",
];

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C04",
            level: "exploration",
            quick: 4000,
            thorough: 400000,
            cpu: 120,
            rule: "one case = one generated filesystem with about ten files of random extent trees (depth 0-5) or block maps (all levels, sparse), random block size 1K-64K, volumes up to 2^47 blocks; every file is read whole or, when large, around every mapping boundary, and compared byte for byte with the model. Non-trivial: a file whose layout has more than one run, a hole, an unwritten run, an index level or an indirect block; distinct by layout",
            assumptions: WF,
            run: c04,
        },
        Prop {
            id: "C05",
            level: "exploration",
            quick: 10000,
            thorough: 1000000,
            cpu: 120,
            rule: "one case = one generated filesystem and a random history of reads (buffer sizes 0 to several blocks) and seeks (all SeekFrom kinds, in range, past the end, 64-bit extremes) over 2-4 interleaved handles, checked step by step against a cursor model. Non-trivial: an operation that read across or at a block or file boundary, or sought; distinct by (layout, position, operation)",
            assumptions: WF,
            run: c05,
        },
        Prop {
            id: "C09",
            level: "exploration",
            quick: 6000,
            thorough: 600000,
            cpu: 120,
            rule: "one case = one generated tree of all file types with random mode, 32-bit owner and group, 64-bit sizes, inode sizes and symlink targets of all lengths; every inode is looked at through metadata, symlink_metadata, its directory entry and an open file. Non-trivial: distinct (mode, uid, gid, size, inode size) tuples and symlink targets observed",
            assumptions: WF,
            run: c09,
        },
    ]
}

pub fn load(img: &Image, ctx: &mut Ctx) -> Option<(Ext4, Mon)> {
    let mon = Mon::new(img.disk.clone());
    match Ext4::load(mon.boxed()) {
        Ok(fs) => Some((fs, mon)),
        Err(e) => {
            ctx.fail("load-failed", format!("well-formed filesystem does not load: {} {:?}", e, e));
            None
        }
    }
}

/// A filesystem with files only.
fn file_image(r: &mut Rng, thorough: bool, count: u64) -> Image {
    let mut o = GenOpts { huge: 30, blocks: 3000, specials: false, symlinks: 0, htree: 0, ..Default::default() };
    o.nodes = (4, count);
    match r.below(8) {
        0 => o.max_lblk = 70_000,
        1 => o.max_lblk = 1_100_000,
        2 if thorough => o.max_lblk = 5_000_000,
        _ => {}
    }
    if r.chance(1, 60) {
        // Extents of up to 32768 blocks.
        o.huge = 100;
        o.long = 30;
        o.nodes = (4, 8);
        o.extents = Some(true);
    }
    if r.chance(1, 4) {
        o.file_blocks = 120;
        o.blocks = 8000;
    }
    if r.chance(1, 3) {
        o.bs = vec![1024];
    }
    if count > 20 && r.chance(1, 300) {
        // Holes of more than 2^24 blocks.
        o.max_lblk = 40_000_000;
        o.extents = Some(true);
        o.huge = 60;
        o.nodes = (2, 4);
    }
    gen_image(r, &o)
}

fn layout_key(n: &MInode) -> u64 {
    let mut h = mix(n.size);
    if let Kind::Reg(Content::Pat { runs, bs, .. }) = &n.kind {
        for (a, b) in runs {
            h = mix(h ^ ((*a as u64) << 32) ^ *b as u64);
        }
        h = mix(h ^ *bs as u64);
    }
    mix(h ^ crate::rng::fnv(n.note.as_bytes()))
}

/// Positions worth reading at in a file.
pub fn points(n: &MInode, bs: u64) -> Vec<u64> {
    let mut v = vec![0, n.size.saturating_sub(1), n.size.saturating_sub(bs), n.size / 2];
    if let Kind::Reg(Content::Pat { runs, .. }) = &n.kind {
        for (a, l) in runs {
            let s = *a as u64 * bs;
            let e = (*a as u64 + *l as u64) * bs;
            v.extend([s, s.saturating_sub(3), e, e.saturating_sub(3), (s + e) / 2]);
        }
    }
    v.retain(|x| *x <= n.size);
    v.sort_unstable();
    v.dedup();
    v
}

fn c04(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let img = file_image(&mut r, ctx.thorough, 22);
    ctx.note(img.cfg.describe());
    let Some((fs, _mon)) = load(&img, ctx) else { return };
    let m = &img.model;
    let bs = img.cfg.bs as u64;
    let mut dg = Digests::default();
    for (p, ino) in m.all_paths() {
        let n = m.get(ino);
        let Kind::Reg(c) = &n.kind else { continue };
        if let Content::Pat { runs, .. } = c {
            if runs.len() != 1 || n.note.contains("min_depth: 1") || runs[0].0 != 0 || n.size > runs[0].1 as u64 * bs {
                ctx.nontrivial(layout_key(n));
            }
        }
        ctx.distinct("layout", layout_key(n));
        ctx.sample(|| format!("{} {} {}", img.cfg.describe(), esc(&p), n.note));
        let what = format!("{} | {} ino={}", img.cfg.describe(), n.note, ino);
        ctx.note(what);
        if n.size <= 6 << 20 {
            let k = match r.below(3) {
                0 => OpK::Open(r.next()),
                1 => OpK::ReadStr,
                _ => OpK::Read,
            };
            let op = Op { k, path: p.clone() };
            // Read in full, and compare the bytes themselves on failure.
            let got = exec(&fs, &op);
            ctx.eval(1);
            ctx.count("bytes_compared", n.size);
            if let Some(msg) = judge(m, &op, &got, &mut dg) {
                let detail = match fs.read(p.as_slice()) {
                    Ok(v) => {
                        let w = c.all(n.size);
                        let at = v.iter().zip(&w).position(|(a, b)| a != b);
                        format!("read() len {} first difference at {:?}", v.len(), at)
                    }
                    Err(e) => format!("read(): {}", e),
                };
                ctx.fail("contents", format!("{} ({})", msg, detail));
            }
        } else {
            ctx.count("large_files_sampled", 1);
            let mut pts = points(n, bs);
            r.shuffle(&mut pts);
            pts.truncate(if n.size / bs > 5_000_000 { 2 } else if n.size / bs > 200_000 { 5 } else { 16 });
            for pos in pts {
                let op = Op { k: OpK::OpenAt(pos, r.range(1, 3 * bs) as u32), path: p.clone() };
                let got = exec(&fs, &op);
                ctx.eval(1);
                if let Some(msg) = judge(m, &op, &got, &mut dg) {
                    ctx.fail("contents", msg);
                }
            }
        }
    }
    ctx.count("filesystems", 1);
}

struct Cur {
    f: ext4_view::File,
    ino: u32,
    pos: u64,
}

fn c05(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let img = file_image(&mut r, false, 12);
    ctx.note(img.cfg.describe());
    let Some((fs, _mon)) = load(&img, ctx) else { return };
    let m = &img.model;
    let bs = img.cfg.bs as u64;
    let files: Vec<(Vec<u8>, u32)> = m
        .all_paths()
        .into_iter()
        .filter(|(_, i)| m.get(*i).is_reg())
        // Seeking is linear in the position: stay moderate.
        .filter(|(_, i)| m.get(*i).size / bs < 80_000)
        .collect();
    if files.is_empty() {
        ctx.eval(1);
        return;
    }
    let mut hs: Vec<Cur> = Vec::new();
    for _ in 0..r.range(2, 4) {
        let (p, ino) = r.pick(&files).clone();
        match fs.open(p.as_slice()) {
            Ok(f) => hs.push(Cur { f, ino, pos: 0 }),
            Err(e) => {
                ctx.fail("open", format!("open {}: {}", esc(&p), e));
                return;
            }
        }
    }
    let mut hist: Vec<String> = Vec::new();
    let steps = r.range(40, 160);
    let mut heavy = 0u64;
    for _ in 0..steps {
        let h = r.usize(hs.len());
        let n = m.get(hs[h].ino);
        let size = n.size;
        let c = &mut hs[h];
        let key = mix(layout_key(n) ^ mix(c.pos));
        if r.chance(3, 5) {
            // Read.
            let len = match r.below(8) {
                0 => 0,
                1 => 1,
                2 => bs as usize,
                3 => bs as usize + 1,
                4 => r.range(1, 4 * bs) as usize,
                5 => 100_000,
                _ => r.range(1, bs + 7) as usize,
            };
            let via_trait = r.bool();
            let mut buf = vec![0xc7u8; len];
            let res = if via_trait {
                c.f.read(&mut buf).map_err(|e| e.to_string())
            } else {
                c.f.read_bytes(&mut buf).map_err(|e| e.to_string())
            };
            hist.push(format!("h{} {} read({}) -> {:?}", h, if via_trait { "io" } else { "" }, len, res));
            ctx.eval(1);
            let got = match res {
                Ok(g) => g,
                Err(e) => {
                    ctx.fail("read-error", format!("read failed: {} at {} of {} {} hist {:?}", e, c.pos, size, n.note, tail(&hist)));
                    return;
                }
            };
            let avail = size.saturating_sub(c.pos);
            if got as u64 > avail.min(len as u64) || (got == 0 && len > 0 && avail > 0) {
                ctx.fail("read-count", format!("read({}) at {} of {} returned {}: {:?}", len, c.pos, size, got, tail(&hist)));
                return;
            }
            let Kind::Reg(ct) = &n.kind else { unreachable!() };
            let mut want = vec![0; got];
            ct.read(c.pos, &mut want);
            if want != buf[..got] {
                ctx.fail("read-bytes", format!("wrong bytes at {} len {} ({}): {:?}", c.pos, got, n.note, tail(&hist)));
                return;
            }
            if buf[got..].iter().any(|b| *b != 0xc7) {
                // Bytes past the returned count are unspecified; only count.
                ctx.count("buffer_tail_touched", 1);
            }
            c.pos += got as u64;
            ctx.nontrivial(mix(key ^ len as u64));
        } else {
            // Seek.
            let target: i128 = match r.below(10) {
                0 => 0,
                1 => size as i128,
                2 => size as i128 + r.skewed(1 << 20) as i128,
                3 => size as i128 - 1 - r.below(bs) as i128,
                4 => c.pos as i128 + r.range(0, 2 * bs) as i128 - bs as i128,
                5 => (r.below(size / bs + 2) * bs) as i128,
                6 => *r.pick(&[u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, u64::MAX - 4096, 1 << 62]) as i128,
                7 => -(r.range(1, 1 << 20) as i128),
                _ => r.below(size + 1) as i128,
            };
            let mode = r.below(4);
            let (res, want, desc): (Result<u64, String>, Option<u64>, String) = match mode {
                0 => {
                    if target < 0 {
                        continue;
                    }
                    let t = target as u64;
                    (c.f.seek_to(t).map(|_| t).map_err(|e| e.to_string()), Some(t), format!("seek_to({})", t))
                }
                1 => {
                    if target < 0 {
                        continue;
                    }
                    let t = target as u64;
                    (c.f.seek(SeekFrom::Start(t)).map_err(|e| e.to_string()), Some(t), format!("Start({})", t))
                }
                2 => {
                    let d = (target - c.pos as i128).clamp(i64::MIN as i128, i64::MAX as i128) as i64;
                    let w = c.pos as i128 + d as i128;
                    let w = (w >= 0 && w <= u64::MAX as i128).then_some(w as u64);
                    (c.f.seek(SeekFrom::Current(d)).map_err(|e| e.to_string()), w, format!("Current({})", d))
                }
                _ => {
                    let d = (target - size as i128).clamp(i64::MIN as i128, i64::MAX as i128) as i64;
                    let w = size as i128 + d as i128;
                    let w = (w >= 0 && w <= u64::MAX as i128).then_some(w as u64);
                    (c.f.seek(SeekFrom::End(d)).map_err(|e| e.to_string()), w, format!("End({})", d))
                }
            };
            if let Ok(p) = &res {
                heavy += (*p).min(size) / bs;
            }
            hist.push(format!("h{} {} -> {:?}", h, desc, res));
            ctx.eval(1);
            ctx.nontrivial(mix(key ^ crate::rng::fnv(desc.as_bytes())));
            match (res, want) {
                (Ok(p), Some(w)) if p == w => c.pos = w,
                // Relative seeks from or beyond 2^63 may be refused.
                (Err(_), Some(w)) if mode >= 2 && (w > i64::MAX as u64 || c.pos > i64::MAX as u64) => {}
                (Err(_), None) => {}
                (r, w) => {
                    ctx.fail("seek", format!("{} at {} of {}: {:?}, expected {:?}: {:?}", desc, c.pos, size, r, w, tail(&hist)));
                    return;
                }
            }
        }
        if c.f.position() != c.pos {
            ctx.fail("position", format!("position() {} expected {}: {:?}", c.f.position(), c.pos, tail(&hist)));
            return;
        }
        // Other handles must not have moved.
        for (k, o) in hs.iter().enumerate() {
            if o.f.position() != o.pos {
                ctx.fail("position", format!("handle {} moved to {} from {}", k, o.f.position(), o.pos));
                return;
            }
        }
        if heavy > 2_000_000 {
            break;
        }
    }
    ctx.sample(|| format!("{} {:?}", img.cfg.describe(), tail(&hist)));
    ctx.count("histories", 1);
    ctx.max("history_length", hist.len() as u64);
}

fn tail(h: &[String]) -> Vec<String> {
    h[h.len().saturating_sub(12)..].to_vec()
}

fn c09(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let o = GenOpts { symlinks: 35, nodes: (20, 70), htree: 15, encrypt: r.chance(1, 5), ..Default::default() };
    let mut mk = gen_tree(&mut r, &o);
    // Inodes with extreme sizes (never read here).
    let big = big_files(&mut r, &mut mk);
    let img = mk.finish();
    ctx.note(img.cfg.describe());
    let Some((fs, _mon)) = load(&img, ctx) else { return };
    let m = &img.model;
    let mut dg = Digests::default();
    let _ = big;
    ctx.sample(|| format!("{} inodes={}", img.cfg.describe(), m.inodes.len()));
    let mut ops = vec![Op { k: OpK::Meta, path: b"/".to_vec() }, Op { k: OpK::SymMeta, path: b"/".to_vec() }];
    for (p, _) in m.dir_paths() {
        ops.push(Op { k: OpK::ListMeta, path: p });
    }
    for (p, ino) in m.all_paths() {
        let n = m.get(ino);
        ops.push(Op { k: OpK::SymMeta, path: p.clone() });
        ops.push(Op { k: OpK::Meta, path: p.clone() });
        if n.is_link() {
            ops.push(Op { k: OpK::ReadLink, path: p.clone() });
        } else {
            ops.push(Op { k: OpK::OpenMeta, path: p.clone() });
        }
        ctx.nontrivial(mix(
            mix(n.mode as u64 ^ ((n.uid as u64) << 16)) ^ mix(n.gid as u64 ^ n.size << 32) ^ img.cfg.inode_size as u64
                ^ match &n.kind {
                    Kind::Link(t) => digest(t),
                    _ => 0,
                },
        ));
    }
    r.shuffle(&mut ops);
    for op in ops {
        if ctx.tired() {
            break;
        }
        let got = exec(&fs, &op);
        ctx.eval(1);
        if let Some(msg) = judge(m, &op, &got, &mut dg) {
            ctx.fail("metadata", msg);
        }
    }
    label_uuid(&fs, m, ctx);
}

pub fn label_uuid(fs: &Ext4, m: &Model, ctx: &mut Ctx) {
    ctx.eval(2);
    if fs.uuid().as_bytes() != &m.uuid {
        ctx.fail("uuid", format!("uuid {:?} expected {:02x?}", fs.uuid(), m.uuid));
    }
    if fs.label().as_bytes() != &m.label {
        ctx.fail("label", format!("label {:?} expected {:02x?}", fs.label(), m.label));
    }
}

/// Files whose size needs 64 bits, in their own directory.
fn big_files(r: &mut Rng, mk: &mut Mk) -> usize {
    let k = r.range(1, 4) as usize;
    // They hang off a fresh directory which replaces nothing: link it from
    // the root by rewriting the root is not possible any more, so instead
    // enlarge existing files in place.
    let regs: Vec<u32> = mk
        .model
        .inodes
        .values()
        .filter(|n| n.is_reg() && matches!(n.kind, Kind::Reg(Content::Pat { .. })))
        .map(|n| n.ino)
        .collect();
    let mut done = 0;
    for _ in 0..k {
        if regs.is_empty() {
            break;
        }
        let ino = *r.pick(&regs);
        let size = match r.below(4) {
            0 => (1 << 32) + r.below(1 << 20),
            1 => r.next() >> r.range(1, 30),
            2 => r.next() & 0xffff_ffff,
            _ => (1u64 << 32) - 1,
        };
        // Blocks are numbered with 32 bits.
        let size = size.min(u32::MAX as u64 * mk.cfg.bs as u64);
        let off = mk.ino_off(ino);
        let isz = mk.cfg.inode_size as usize;
        let mut b = vec![0; isz];
        mk.disk.read(off, &mut b);
        w32(&mut b, 4, size as u32);
        w32(&mut b, 0x6c, (size >> 32) as u32);
        if mk.cfg.csum {
            inode_csum(&mk.cfg, ino, &mut b);
        }
        mk.disk.write(off, &b);
        mk.model.inodes.get_mut(&ino).unwrap().size = size;
        done += 1;
    }
    done
}

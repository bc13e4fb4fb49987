//! Hostile images: C01 (panics), C02 (bounded work), C03 (bounded memory),
//! C12 (checksummed metadata).

use super::journal;
use super::store::{mixed_opts, paths_of, rand_op};
use crate::cov;
use crate::ctx::Ctx;
use crate::disk::Disk;
use crate::gen::*;
use crate::mkfs::*;
use crate::model::*;
use crate::mon::{self, Mon};
use crate::ops::*;
use crate::rng::{mix, Rng};
use crate::sums::Alg;
use crate::verify::{verify_tree, Limits};
use crate::Prop;
use ext4_view::{Ext4, Ext4Error, Path, PathBuf};
use std::collections::BTreeMap;
use std::io::{Read, Seek, SeekFrom};

const ANY: &[&str] = &[
    "the images explored are mutations of generated filesystems (fields set to boundary values, structures copied, swapped and zeroed, checksums made to match in most), structured attacks, and junk",
    "library built from /repo with debug assertions, overflow checks and SanitizerCoverage edge counters",
];

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            level: "exploration",
            quick: 3500,
            thorough: 350000,
            cpu: 120,
            rule: "one case = one generated filesystem and about a dozen hostile variants of it (or junk); each is loaded and, if that succeeds, explored through every public operation, with results, errors and handles formatted. Non-trivial: a mutated image that loaded and on which operations ran; distinct by the image's digest",
            assumptions: ANY,
            run: c01,
        },
        Prop {
            id: "C02",
            level: "exploration",
            quick: 2500,
            thorough: 250000,
            cpu: 300,
            rule: "one case = one generated small filesystem and several variants with cyclic, self-referencing or fanned-out structures (checksums valid); every operation runs under a limit on executed library edges that depends on the volume and file size only. Non-trivial: a distinct hostile variant on which an operation ran to its end within the limit",
            assumptions: ANY,
            run: c02,
        },
        Prop {
            id: "C03",
            level: "exploration",
            quick: 5000,
            thorough: 500000,
            cpu: 120,
            rule: "one case = one generated small filesystem and several variants with hostile sizes, counts and lengths; every operation runs under an allocator that counts live bytes and refuses requests beyond the bound, and everything must be released when the handles are dropped. Non-trivial: a distinct hostile variant whose operations ran within the bound",
            assumptions: ANY,
            run: c03,
        },
        Prop {
            id: "C12",
            level: "fault_enumeration",
            quick: 2000,
            thorough: 200000,
            cpu: 120,
            rule: "one case = one generated filesystem with metadata checksums and about thirty corruptions (bit, byte, burst, zeroed, random, misdirected) of single checksummed structures that the checksum algorithm can tell from the original; operations return the true result or Corrupt/Incompatible, and those that rely on the damaged structure fail. Non-trivial: a corruption that made at least one operation fail; distinct by (structure, offset, kind of damage)",
            assumptions: &[
                "the harness's image writer (harness/src/mkfs.rs) produces well-formed filesystems according to the ext4 on-disk format",
                "a corruption that yields the same (possibly truncated to 16 bits) checksum is undetectable and is left out, as is one that clears the feature bit that declares checksums",
            ],
            run: c12,
        },
    ]
}

// ------------------------------------------------------------- mutations

fn cat(k: &StructKind) -> u8 {
    match k {
        StructKind::Sb => 0,
        StructKind::Bgd(_) => 1,
        StructKind::Inode(_) => 2,
        StructKind::Extent(_) => 3,
        StructKind::Indirect(_) => 4,
        StructKind::DirLeaf(_) => 5,
        StructKind::DxRoot(_) => 6,
        StructKind::DxNode(_) => 7,
        StructKind::Journal(_) => 8,
        StructKind::Target(_) => 9,
    }
}

fn pick_struct(r: &mut Rng, img: &Image) -> Option<Struct> {
    // By category first: rare structures matter as much as common ones.
    const W: [u64; 10] = [2, 2, 8, 6, 5, 8, 5, 5, 7, 1];
    let mut have: Vec<u8> = Vec::new();
    let mut by: Vec<Vec<usize>> = vec![vec![]; 10];
    for (i, s) in img.structs.iter().enumerate() {
        by[cat(&s.kind) as usize].push(i);
    }
    for c in 0..10u8 {
        if !by[c as usize].is_empty() {
            for _ in 0..W[c as usize] {
                have.push(c);
            }
        }
    }
    if have.is_empty() {
        return None;
    }
    let c = *r.pick(&have) as usize;
    let i = *r.pick(&by[c]);
    Some(img.structs[i].clone())
}

/// Fields that drive decisions: (offset, size, big-endian).
fn hot(s: &Struct, b: &[u8], r: &mut Rng) -> (usize, usize, bool) {
    let n = b.len();
    let le = |o: usize, k: usize| (o.min(n - k), k, false);
    match &s.kind {
        StructKind::Sb => {
            const F: [(usize, usize); 24] = [
                (0, 4), (4, 4), (0x14, 4), (0x18, 4), (0x18, 4), (0x20, 4), (0x20, 4), (0x28, 4), (0x28, 4), (0x4c, 4), (0x58, 2),
                (0x58, 2), (0x5c, 4), (0x60, 4), (0x60, 1), (0x64, 4), (0xe0, 4), (0xfe, 2), (0xfe, 2), (0x150, 4), (0x160, 4),
                (0x175, 1), (0x270, 4), (0x38, 2),
            ];
            let f = *r.pick(&F);
            le(f.0, f.1)
        }
        StructKind::Bgd(_) => {
            let f = *r.pick(&[(8usize, 4usize), (8, 4), (0x28, 4), (0x12, 2), (0x1e, 2)]);
            le(f.0.min(n - f.1), f.1)
        }
        StructKind::Inode(_) => match r.below(10) {
            0 => le(0, 2),
            1 => le(4, 4),
            2 => le(0x6c, 4),
            3 => le(0x20, 4),
            4 => le(0x80, 2),
            5 => {
                let f = *r.pick(&[0x28usize, 0x2a, 0x2c, 0x2e]);
                le(f, 2)
            }
            6 | 7 => le(0x28 + 4 * r.usize(15), 4),
            8 => le(0x34 + 12 * r.usize(4) + 2 * r.usize(6), 2),
            _ => le(0x28 + r.usize(60), 1),
        },
        StructKind::Extent(_) => match r.below(4) {
            0 => {
                let f = *r.pick(&[0usize, 2, 4, 6]);
                le(f, 2)
            }
            _ => {
                let c = (r16(b, 2) as usize).clamp(1, (n - 12) / 12);
                let at = 12 + 12 * r.usize(c);
                match r.below(4) {
                    0 => le(at, 4),
                    1 => le(at + 4, 2),
                    2 => le(at + 6, 2),
                    _ => le(at + 8, 4),
                }
            }
        },
        StructKind::Indirect(_) => {
            let k = if r.bool() { r.usize(n / 4) } else { r.usize(16) };
            le(4 * k, 4)
        }
        StructKind::DirLeaf(_) => {
            // Find a record.
            let mut recs = vec![0];
            let mut o = 0;
            while o + 8 <= n {
                let l = r16(b, o + 4) as usize;
                if l < 8 {
                    break;
                }
                o += l;
                if o + 8 <= n {
                    recs.push(o);
                }
            }
            let o = *r.pick(&recs);
            match r.below(8) {
                0 | 1 => le(o, 4),
                2 | 3 => le(o + 4, 2),
                4 => le(o + 6, 1),
                5 => le(o + 7, 1),
                6 => le(o + 8, 1),
                _ => le(o + 8 + r.usize(8), 1),
            }
        }
        StructKind::DxRoot(_) | StructKind::DxNode(_) => {
            let at = if matches!(s.kind, StructKind::DxRoot(_)) { 0x20 } else { 8 };
            let c = (r16(b, at + 2) as usize).clamp(1, (n - at) / 8);
            match r.below(8) {
                0 => le(at, 2),
                1 | 2 => le(at + 2, 2),
                3 if at == 0x20 => {
                    let f = *r.pick(&[0x1cusize, 0x1d, 0x1e, 0x1e, 0x1f]);
                    le(f, 1)
                }
                3 => le(4, 2),
                4 | 5 => le(at + 8 * r.usize(c) + 4, 4),
                6 => le(at + 8 * r.usize(c), 4),
                _ => le(r.usize(0x20), 1),
            }
        }
        StructKind::Journal(k) => {
            let be = |o: usize, k: usize| (o.min(n - k), k, true);
            match *k {
                "jsb" => {
                    let f = *r.pick(&[0usize, 4, 8, 12, 16, 16, 20, 20, 24, 28, 28, 32, 36, 40, 44, 0x50, 0xfc]);
                    be(f, 4)
                }
                "jdesc" => match r.below(6) {
                    0 => be(4 * r.usize(3), 4),
                    1 => be(n - 4, 4),
                    _ => be(12 + 4 * r.usize(24), 4),
                },
                "jrevoke" => match r.below(5) {
                    0 => be(4 * r.usize(3), 4),
                    1 | 2 => be(12, 4),
                    _ => be(16 + 4 * r.usize(16), 4),
                },
                _ => be(4 * r.usize(8), 4),
            }
        }
        StructKind::Target(_) => le(r.usize(n), 1),
    }
}

fn interesting(r: &mut Rng, old: u64, w: usize, s: &Struct, img: &Image) -> u64 {
    let bs = img.cfg.bs as u64;
    let max = if w == 8 { u64::MAX } else { (1 << (8 * w)) - 1 };
    let v = match r.below(26) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => max,
        4 => max - 1,
        5 => max / 2,
        6 => max / 2 + 1,
        7 => img.cfg.nblocks,
        8 => img.cfg.nblocks - 1,
        9 => img.cfg.nblocks + 1,
        10 | 11 => s.off / bs,
        12 | 13 => r.pick(&img.structs).off / bs,
        14 => 2,
        15 => *r.pick(&img.model.inodes.keys().copied().collect::<Vec<_>>()) as u64,
        16 => img.cfg.groups() as u64 * img.cfg.ipg as u64 + r.below(2),
        17 => r.below(16),
        18 => old.wrapping_add(1),
        19 => old.wrapping_sub(1),
        20 => old.wrapping_mul(2),
        21 | 22 => old ^ (1 << r.below(8 * w as u64)),
        23 => bs + r.below(3) - 1,
        24 => r.next(),
        _ => 1 << r.below(8 * w as u64),
    };
    v & max
}

fn get(b: &[u8], o: usize, w: usize, be: bool) -> u64 {
    let mut v = 0;
    for i in 0..w {
        let x = b[o + i] as u64;
        if be {
            v = v << 8 | x;
        } else {
            v |= x << (8 * i);
        }
    }
    v
}

fn set(b: &mut [u8], o: usize, w: usize, be: bool, v: u64) {
    for i in 0..w {
        let s = if be { 8 * (w - 1 - i) } else { 8 * i };
        b[o + i] = (v >> s) as u8;
    }
}

/// Make the checksum of a structure match its contents.
fn refix(img: &Image, disk: &mut Disk, s: &Struct) {
    if let StructKind::Journal(k) = &s.kind {
        if let Some(j) = img.structs.iter().find(|x| matches!(x.kind, StructKind::Journal("jsb"))) {
            let mut b = vec![0; 1024];
            disk.read(j.off, &mut b);
            let mut uuid = [0; 16];
            uuid.copy_from_slice(&b[0x30..0x40]);
            let mut b = vec![0; s.len as usize];
            if disk.read(s.off, &mut b) {
                journal::rejournal(k, &uuid, &mut b);
                disk.write(s.off, &b);
            }
        }
        return;
    }
    img.refix_one(disk, s);
    if let StructKind::Inode(ino) = &s.kind {
        // The generation is part of the seed of the inode's other blocks.
        for x in &img.structs {
            let i = match &x.kind {
                StructKind::Extent(i) | StructKind::DirLeaf(i) | StructKind::DxRoot(i) | StructKind::DxNode(i) => *i,
                _ => continue,
            };
            if i == *ino {
                img.refix_one(disk, x);
            }
        }
    }
}

/// Apply up to `n` mutations; returns the new contents and a description.
pub fn mutate(r: &mut Rng, img: &Image, n: u64) -> (Disk, String) {
    let mut disk = img.disk.clone();
    let mut what = Vec::new();
    let k = r.range(1, n.max(1));
    for _ in 0..k {
        if r.chance(1, 4) {
            if let Some(w) = attack(r, img, &mut disk) {
                what.push(w);
                continue;
            }
        }
        let Some(s) = pick_struct(r, img) else { break };
        what.push(mutate_one(r, img, &mut disk, &s));
    }
    shorten(&mut disk);
    (disk, what.join("; "))
}

fn mutate_one(r: &mut Rng, img: &Image, disk: &mut Disk, s: &Struct) -> String {
    let n = s.len as usize;
    let mut b = vec![0; n];
    if n == 0 || !disk.read(s.off, &mut b) {
        return String::new();
    }
    let mut what = format!("{:?}@{}", s.kind, s.off);
    match r.below(20) {
        0..=12 => {
            for _ in 0..*r.pick(&[1u64, 1, 1, 2, 3]) {
                let (o, w, be) = hot(s, &b, r);
                let old = get(&b, o, w, be);
                let v = interesting(r, old, w, s, img);
                set(&mut b, o, w, be, v);
                what.push_str(&format!(" +{}:{}={:#x}", o, w, v));
            }
        }
        13 | 14 => {
            let o = r.usize(n);
            b[o] ^= 1 << r.below(8);
            what.push_str(&format!(" +{} bit", o));
        }
        15 => {
            let o = r.usize(n);
            let l = r.range(1, 32).min((n - o) as u64) as usize;
            r.fill(&mut b[o..o + l]);
            what.push_str(&format!(" +{} random {}", o, l));
        }
        16 => {
            b.fill(*r.pick(&[0u8, 0, 0xff]));
            what.push_str(" filled");
        }
        17 => {
            r.fill(&mut b);
            what.push_str(" random");
        }
        18 => {
            // A copy of another structure.
            let t = r.pick(&img.structs).clone();
            let m = n.min(t.len as usize);
            let mut c = vec![0; m];
            if disk.read(t.off, &mut c) {
                b[..m].copy_from_slice(&c);
            }
            what.push_str(&format!(" copy of {:?}", t.kind));
        }
        _ => {
            let same: Vec<&Struct> = img.structs.iter().filter(|x| cat(&x.kind) == cat(&s.kind) && x.off != s.off).collect();
            if !same.is_empty() {
                let t = (*r.pick(&same)).clone();
                let m = n.min(t.len as usize);
                let mut c = vec![0; m];
                if disk.read(t.off, &mut c) {
                    disk.write(t.off, &b[..m]);
                    b[..m].copy_from_slice(&c);
                    if r.bool() {
                        refix(img, disk, &t);
                    }
                }
                what.push_str(&format!(" swapped with {:?}", t.kind));
            }
        }
    }
    disk.write(s.off, &b);
    if r.chance(7, 8) {
        refix(img, disk, s);
    } else {
        what.push_str(" (checksum left)");
    }
    what
}

fn of_kind(img: &Image, f: impl Fn(&StructKind) -> bool) -> Vec<Struct> {
    img.structs.iter().filter(|s| f(&s.kind)).cloned().collect()
}

fn rd(disk: &Disk, s: &Struct) -> Option<Vec<u8>> {
    let mut b = vec![0; s.len as usize];
    disk.read(s.off, &mut b).then_some(b)
}

thread_local! {
    /// Paths that are to be looked up after an attack.
    static WANTED: std::cell::RefCell<Vec<Vec<u8>>> = const { std::cell::RefCell::new(Vec::new()) };
}

/// An attack that single-field changes hardly ever amount to.
fn attack(r: &mut Rng, img: &Image, disk: &mut Disk) -> Option<String> {
    let bs = img.cfg.bs as u64;
    match r.below(18) {
        // A hash tree that is a lattice, of entries that all say that the
        // names with one hash go on in the next.
        17 => {
            let roots = of_kind(img, |k| matches!(k, StructKind::DxRoot(_)));
            if roots.is_empty() {
                return None;
            }
            let s = r.pick(&roots).clone();
            let StructKind::DxRoot(ino) = s.kind else { return None };
            let dir = img.model.dir_paths().into_iter().find(|x| x.1 == ino)?.0;
            let mut b = rd(disk, &s)?;
            let alg = match b[0x1c] {
                1 => Alg::HalfMd4,
                2 => Alg::Tea,
                _ => return None,
            };
            let nodes = of_kind(img, |k| matches!(k, StructKind::DxNode(i) if *i == ino));
            let name = format!("zz{}", r.below(1000)).into_bytes();
            let h = crate::sums::dirhash(&name, alg, img.cfg.unsigned_hash(), &img.cfg.hash_seed);
            let fill = |b: &mut [u8], at: usize, t: u32| {
                let cap = (b.len() - at) / 8 - 1;
                w16(b, at, cap as u16);
                w16(b, at + 2, cap as u16);
                w32(b, at + 4, t);
                for i in 1..cap {
                    w32(b, at + 8 * i, h | 1);
                    w32(b, at + 8 * i + 4, t);
                }
            };
            let child = r32(&b, 0x24);
            let mut depth = b[0x1e];
            for s in &nodes {
                let mut n = rd(disk, s)?;
                let mut t = r32(&n, 12);
                // A node that is a leaf as well: one unused record.
                if !img.cfg.csum && r.bool() {
                    t = child;
                    depth = r.range(1, 3) as u8;
                }
                fill(&mut n, 8, t);
                disk.write(s.off, &n);
                refix(img, disk, s);
            }
            b[0x1e] = depth;
            fill(&mut b, 0x20, child);
            disk.write(s.off, &b);
            refix(img, disk, &s);
            WANTED.with(|w| w.borrow_mut().push(crate::model::join(&dir, &name)));
            Some(format!("hash tree of {} is a lattice of depth {} ({} nodes)", ino, depth, nodes.len()))
        }
        // Cycles of symlinks.
        15 | 16 => {
            let paths: Vec<(Vec<u8>, u32)> = img.model.all_paths().into_iter().filter(|(p, j)| *j != 2 && p.len() < 50).collect();
            if paths.is_empty() {
                return None;
            }
            let n = r.range(1, 3) as usize;
            let on: Vec<(Vec<u8>, u32)> = (0..n).map(|_| r.pick(&paths).clone()).collect();
            let base = |p: &[u8]| p[p.iter().rposition(|c| *c == b'/').unwrap() + 1..].to_vec();
            let mut what = String::new();
            for (i, (p, ino)) in on.iter().enumerate() {
                let Some(s) = img.structs.iter().find(|s| matches!(s.kind, StructKind::Inode(x) if x == *ino)).cloned() else { continue };
                let to = &on[(i + 1) % n].0;
                let depth = p.iter().filter(|c| **c == b'/').count() - 1;
                let mut t: Vec<u8> = match r.below(4) {
                    // From here.
                    0 if n == 1 => base(p),
                    0 | 1 => {
                        let mut t = b"../".repeat(depth);
                        t.extend(&to[1..]);
                        t
                    }
                    // More dots than there are directories.
                    2 => {
                        let mut t = b"../".repeat(depth + r.below(3) as usize);
                        t.extend(&to[1..]);
                        t
                    }
                    _ => to.clone(),
                };
                match r.below(8) {
                    0 => t.push(b'/'),
                    1 => t.extend(b"/."),
                    2 => t.extend(b"/.."),
                    3 => t.extend(b"/x"),
                    4 => t = [b"./".to_vec(), t].concat(),
                    5 => t = [b"/../".to_vec(), t].concat(),
                    _ => {}
                }
                if t.len() > 59 {
                    continue;
                }
                let mut b = rd(disk, &s)?;
                let mode = r16(&b, 0) & 0xfff | crate::model::S_IFLNK;
                w16(&mut b, 0, mode);
                w32(&mut b, 0x20, 0);
                b[0x28..0x64].fill(0);
                b[0x28..0x28 + t.len()].copy_from_slice(&t);
                w32(&mut b, 4, t.len() as u32);
                w32(&mut b, 0x6c, 0);
                disk.write(s.off, &b);
                refix(img, disk, &s);
                what.push_str(&format!("{:?} leads to {}; ", s.kind, String::from_utf8_lossy(&t)));
            }
            Some(what)
        }
        // Extent index entries that lead back into the tree.
        0 | 1 => {
            let nodes = of_kind(img, |k| matches!(k, StructKind::Extent(_)));
            if nodes.is_empty() {
                return None;
            }
            let s = r.pick(&nodes).clone();
            let StructKind::Extent(ino) = s.kind else { return None };
            let own: Vec<&Struct> = nodes.iter().filter(|x| matches!(x.kind, StructKind::Extent(i) if i == ino)).collect();
            let mut b = rd(disk, &s)?;
            let cap = ((b.len() - 16) / 12) as u16;
            let cnt = if r.bool() { cap } else { r16(&b, 2).clamp(1, cap) };
            let depth = if r.bool() { r.range(1, 5) as u16 } else { r16(&b, 6).max(1) };
            w16(&mut b, 2, cnt);
            w16(&mut b, 4, cap.max(cnt));
            w16(&mut b, 6, depth);
            let to = if r.bool() { s.off / bs } else { r.pick(&own).off / bs };
            let each = r.chance(1, 3);
            for i in 0..cnt as usize {
                let t = if each { r.pick(&own).off / bs } else { to };
                let lblk = if r.bool() { 0 } else { i as u32 };
                w32(&mut b, 12 + 12 * i, lblk);
                w32(&mut b, 16 + 12 * i, t as u32);
                w16(&mut b, 20 + 12 * i, (t >> 32) as u16);
            }
            disk.write(s.off, &b);
            refix(img, disk, &s);
            Some(format!("extent node of {} at {}: {} entries, depth {} leading to {}", ino, s.off / bs, cnt, depth, to))
        }
        // The root of the extent tree leads to itself through one node.
        2 => {
            let inodes = of_kind(img, |k| matches!(k, StructKind::Inode(_)));
            let s = r.pick(&inodes).clone();
            let nodes = of_kind(img, |k| matches!(k, StructKind::Extent(_)));
            let mut b = rd(disk, &s)?;
            if r32(&b, 0x20) & FL_EXTENTS == 0 {
                return None;
            }
            let t = if nodes.is_empty() { r.pick(&img.structs).off / bs } else { r.pick(&nodes).off / bs };
            w16(&mut b, 0x2a, 4);
            w16(&mut b, 0x2c, 4);
            let d = r.range(1, 6) as u16;
            w16(&mut b, 0x2e, d);
            for i in 0..4usize {
                w32(&mut b, 0x34 + 12 * i, i as u32);
                w32(&mut b, 0x38 + 12 * i, t as u32);
                w16(&mut b, 0x3c + 12 * i, (t >> 32) as u16);
            }
            disk.write(s.off, &b);
            refix(img, disk, &s);
            Some(format!("{:?}: four root entries depth {} to {}", s.kind, d, t))
        }
        // Indirect blocks that lead to themselves.
        3 => {
            let nodes = of_kind(img, |k| matches!(k, StructKind::Indirect(_)));
            if nodes.is_empty() {
                return None;
            }
            let s = r.pick(&nodes).clone();
            let mut b = rd(disk, &s)?;
            let t = if r.bool() { s.off / bs } else { r.pick(&nodes).off / bs };
            if r.bool() {
                for c in b.chunks_mut(4) {
                    c.copy_from_slice(&(t as u32).to_le_bytes());
                }
            } else {
                let o = 4 * r.usize(b.len() / 4);
                w32(&mut b, o, t as u32);
            }
            disk.write(s.off, &b);
            Some(format!("indirect block {} leads to {}", s.off / bs, t))
        }
        // Hash tree nodes that lead to themselves or the root.
        4 | 5 => {
            let nodes = of_kind(img, |k| matches!(k, StructKind::DxRoot(_) | StructKind::DxNode(_)));
            if nodes.is_empty() {
                return None;
            }
            let s = r.pick(&nodes).clone();
            let mut b = rd(disk, &s)?;
            let at = if matches!(s.kind, StructKind::DxRoot(_)) { 0x20 } else { 8 };
            if r.bool() && at == 0x20 {
                b[0x1e] = *r.pick(&[1u8, 2, 3, 4, 127, 255]);
            }
            let cap = ((b.len() - at) / 8) as u64;
            let t = *r.pick(&[0u32, 0, 1, 2, 3]);
            let n = (r16(&b, at + 2) as u64).clamp(1, cap);
            let n = if r.chance(1, 3) { (r16(&b, at) as u64).clamp(1, cap) } else { n };
            w16(&mut b, at + 2, n as u16);
            for i in 0..n as usize {
                w32(&mut b, at + 8 * i + 4, if r.chance(1, 6) { i as u32 } else { t });
                if r.chance(1, 3) && i > 0 {
                    w32(&mut b, at + 8 * i, *r.pick(&[0u32, 1, 0xffff_fffe, 0xffff_ffff]));
                }
            }
            disk.write(s.off, &b);
            refix(img, disk, &s);
            Some(format!("{:?} at {}: {} entries to {}", s.kind, s.off / bs, n, t))
        }
        // Directory records of unusual lengths.
        6 => {
            let nodes = of_kind(img, |k| matches!(k, StructKind::DirLeaf(_)));
            if nodes.is_empty() {
                return None;
            }
            let s = r.pick(&nodes).clone();
            let mut b = rd(disk, &s)?;
            let l = *r.pick(&[0u16, 1, 4, 8, 12, 0xffff, 0xfffc, 0xfffe, bs as u16]);
            let mut o = 0usize;
            let stop = r.usize(6);
            for _ in 0..stop {
                let k = r16(&b, o + 4) as usize;
                if k < 8 || o + k + 8 > b.len() {
                    break;
                }
                o += k;
            }
            w16(&mut b, o + 4, l);
            if r.bool() {
                b[o + 6] = r.u8();
            }
            disk.write(s.off, &b);
            refix(img, disk, &s);
            Some(format!("record at {} in block {} has length {}", o, s.off / bs, l))
        }
        // Directory entries that lead anywhere.
        7 => {
            let nodes = of_kind(img, |k| matches!(k, StructKind::DirLeaf(_)));
            if nodes.is_empty() {
                return None;
            }
            let s = r.pick(&nodes).clone();
            let mut b = rd(disk, &s)?;
            let mut o = 0usize;
            let inos: Vec<u32> = img.model.inodes.keys().copied().collect();
            while o + 8 <= b.len() {
                let k = r16(&b, o + 4) as usize;
                if k < 8 {
                    break;
                }
                if r32(&b, o) != 0 && r.bool() {
                    w32(&mut b, o, *r.pick(&inos));
                    if r.bool() {
                        b[o + 7] = r.below(9) as u8;
                    }
                }
                o += k;
            }
            disk.write(s.off, &b);
            refix(img, disk, &s);
            Some(format!("entries of block {} shuffled among inodes", s.off / bs))
        }
        // Sizes.
        8 | 9 => {
            let inodes = of_kind(img, |k| matches!(k, StructKind::Inode(_)));
            let dirs = of_kind(img, |k| matches!(k, StructKind::Inode(i) if img.model.inodes.get(i).is_some_and(|n| n.is_dir())));
            let s = if r.chance(1, 3) && !dirs.is_empty() { r.pick(&dirs).clone() } else { r.pick(&inodes).clone() };
            let mut b = rd(disk, &s)?;
            let v = match r.below(11) {
                // Large, but not too large for a file.
                8 | 9 | 10 => r.below((1 << 32) * bs) >> r.below(20),
                0 => u64::MAX,
                1 => u64::MAX - r.below(bs * 2),
                2 => i64::MAX as u64 + r.below(2),
                3 => (1 << 32) * bs - r.below(2) * bs,
                4 => (1 << 32) * bs + r.below(bs * 2),
                5 => r.next() >> r.below(40),
                6 => 0,
                _ => r.below(bs * 4),
            };
            w32(&mut b, 4, v as u32);
            w32(&mut b, 0x6c, (v >> 32) as u32);
            disk.write(s.off, &b);
            refix(img, disk, &s);
            Some(format!("{:?} has size {:#x}", s.kind, v))
        }
        // Inline symlink targets.
        10 => {
            let inodes = of_kind(img, |k| matches!(k, StructKind::Inode(i) if img.model.inodes.get(i).is_some_and(|n| n.is_link())));
            if inodes.is_empty() {
                return None;
            }
            let s = r.pick(&inodes).clone();
            let mut b = rd(disk, &s)?;
            let l = match r.below(4) {
                0 => *r.pick(&[59usize, 60, 61]),
                1 => 0,
                _ => r.usize(60),
            };
            let own: Vec<Vec<u8>> = img.model.all_paths().into_iter().map(|x| x.0).collect();
            let t = match r.below(4) {
                0 => (0..60).map(|i| if i % 3 == 2 { b'/' } else { b'.' }).collect(),
                1 if !own.is_empty() => r.pick(&own).clone(),
                2 => r.bytes(60),
                _ => vec![b'/'; 60],
            };
            let k = t.len().min(60);
            b[0x28..0x28 + k].copy_from_slice(&t[..k]);
            w32(&mut b, 4, if r.bool() { l as u32 } else { k as u32 });
            disk.write(s.off, &b);
            refix(img, disk, &s);
            Some(format!("{:?} target of length {}", s.kind, l))
        }
        // An extent tree that is a lattice: every entry of a level leads to
        // the same node, so that there are very many paths to the leaf.
        11 | 12 => {
            let inodes = of_kind(img, |k| matches!(k, StructKind::Inode(i) if img.model.inodes.get(i).is_some_and(|n| n.is_dir() || n.is_reg())));
            if inodes.is_empty() {
                return None;
            }
            let s = r.pick(&inodes).clone();
            let StructKind::Inode(ino) = s.kind else { return None };
            let mut b = rd(disk, &s)?;
            let seed = crate::mkfs::iseed(&img.cfg, ino, r32(&b, 0x64));
            let d = r.range(2, 5) as u16;
            let style = r.below(4);
            let leaf = r.below(4);
            let step = |i: u32, l: u16| match style {
                0 => 0,
                1 => i,
                2 => i << (3 * l as u32),
                _ => i.wrapping_mul(0x0100_0001),
            };
            let low = img.cfg.nblocks.min(1 << 32);
            let blks: Vec<u64> = (0..d).map(|_| r.range(2, low - 1)).collect();
            let cap = ((bs as usize - 16) / 12).min(340) as u16;
            for l in 0..d {
                let mut n = vec![0; bs as usize];
                w16(&mut n, 0, 0xf30a);
                let cnt = if l == 0 { if leaf == 0 { 0 } else { cap } } else { cap };
                w16(&mut n, 2, cnt);
                w16(&mut n, 4, cap);
                w16(&mut n, 6, l);
                for i in 0..cnt as usize {
                    let o = 12 + 12 * i;
                    w32(&mut n, o, step(i as u32, l));
                    if l > 0 {
                        w32(&mut n, o + 4, blks[l as usize - 1] as u32);
                    } else {
                        // Unwritten, empty or real.
                        w16(&mut n, o + 4, match leaf { 1 => 0x8001, 2 => 0, _ => 1 });
                        w32(&mut n, o + 8, r.range(2, low - 1) as u32);
                    }
                }
                if img.cfg.csum {
                    crate::mkfs::extent_csum(seed, &mut n);
                }
                disk.put(blks[l as usize], n);
            }
            let fl = r32(&b, 0x20) | FL_EXTENTS;
            w32(&mut b, 0x20, fl);
            w16(&mut b, 0x28, 0xf30a);
            w16(&mut b, 0x2a, 4);
            w16(&mut b, 0x2c, 4);
            w16(&mut b, 0x2e, d);
            for i in 0..4usize {
                w32(&mut b, 0x34 + 12 * i, step(i as u32, d));
                w32(&mut b, 0x38 + 12 * i, blks[d as usize - 1] as u32);
                w16(&mut b, 0x3c + 12 * i, 0);
            }
            if r.bool() {
                w32(&mut b, 4, r.range(1, CAP) as u32);
            }
            disk.write(s.off, &b);
            refix(img, disk, &s);
            Some(format!("{:?}: extent lattice of depth {} style {} leaf {}", s.kind, d, style, leaf))
        }
        // A log that never commits, all the way around.
        13 => {
            let j = img.structs.iter().find(|x| matches!(x.kind, StructKind::Journal("jsb")))?.clone();
            let n = img.jblocks.len();
            if n < 4 {
                return None;
            }
            let mut b = vec![0; img.cfg.bs as usize];
            disk.read(j.off, &mut b);
            let mut uuid = [0; 16];
            uuid.copy_from_slice(&b[0x30..0x40]);
            let seq = r.u32();
            jset(&mut b, 16, n as u32);
            jset(&mut b, 20, 1);
            jset(&mut b, 24, seq);
            jset(&mut b, 28, r.range(1, n as u64 - 1) as u32);
            journal::rejournal("jsb", &uuid, &mut b);
            disk.write(j.off, &b);
            let kind = r.below(3);
            let mut at = 1;
            while at < n {
                let w: Vec<(u64, Vec<u8>)> = if kind == 0 || (kind == 2 && r.bool()) { vec![] } else { vec![(r.range(1, img.cfg.nblocks), vec![7; bs as usize])] };
                let rv: Vec<u64> = if w.is_empty() || at + 1 == n { vec![r.next() >> 30] } else { vec![] };
                let w = if at + 1 == n { vec![] } else { w };
                for (d, k) in journal::emit(r, bs as usize, &uuid, seq, &w, &rv) {
                    if k != "jcommit" && at < n {
                        disk.put(img.jblocks[at], d);
                        at += 1;
                    }
                }
            }
            Some(format!("log of {} blocks without a commit, kind {}", n, kind))
        }
        // A journal whose transactions overwrite the vital parts.
        _ => {
            let j = img.structs.iter().find(|x| matches!(x.kind, StructKind::Journal("jsb")))?.clone();
            let n = img.jblocks.len();
            if n < 8 {
                return None;
            }
            let mut b = vec![0; img.cfg.bs as usize];
            disk.read(j.off, &mut b);
            let mut uuid = [0; 16];
            uuid.copy_from_slice(&b[0x30..0x40]);
            let mut seq = r.u32();
            let jsbblk = j.off / bs;
            let mut at = 1;
            let mut count = 0;
            let mut head = b.clone();
            jset(&mut head, 20, 1);
            jset(&mut head, 24, seq);
            jset(&mut head, 28, 1);
            journal::rejournal("jsb", &uuid, &mut head);
            disk.write(j.off, &head);
            while at < n && count < 60 {
                let mut w: Vec<(u64, Vec<u8>)> = Vec::new();
                for _ in 0..r.range(1, 6) {
                    let t = match r.below(6) {
                        0 => *r.pick(&img.jblocks),
                        1 => jsbblk,
                        2 => r.below(4),
                        3 => r.next() >> r.below(64),
                        _ => r.pick(&img.structs).off / bs,
                    };
                    let mut d = match r.below(4) {
                        0 => r.bytes(bs as usize),
                        1 => vec![0; bs as usize],
                        _ => disk.get(r.pick(&img.structs).off / bs),
                    };
                    if d[..4] == [0xc0, 0x3b, 0x39, 0x98] {
                        d[0] = 0;
                    }
                    w.push((t, d));
                }
                let rv: Vec<u64> = (0..r.below(4)).map(|_| if r.bool() { r.pick(&img.structs).off / bs } else { r.next() }).collect();
                for (d, _) in journal::emit(r, bs as usize, &uuid, seq, &w, &rv) {
                    if at < n {
                        disk.put(img.jblocks[at], d);
                        at += 1;
                    }
                }
                seq = seq.wrapping_add(1);
                count += 1;
                if r.chance(1, 4) {
                    break;
                }
            }
            Some(format!("journal with {} transactions of junk", count))
        }
    }
}

fn jset(b: &mut [u8], o: usize, v: u32) {
    b[o..o + 4].copy_from_slice(&v.to_be_bytes());
}

/// Something that is hardly a filesystem.
pub fn junk(r: &mut Rng, img: &Image) -> (Disk, String) {
    let (mut d, w) = junk_any(r, img);
    shorten(&mut d);
    (d, w)
}

fn junk_any(r: &mut Rng, img: &Image) -> (Disk, String) {
    match r.below(5) {
        0 => {
            let n = *r.pick(&[0u64, 1, 1023, 1024, 1080, 2047, 2048, 2049, 3000, 4096, 10_000]);
            let mut v = r.bytes(n as usize);
            if v.len() > 1024 + 0x3a {
                w16(&mut v, 1024 + 0x38, 0xef53);
            }
            (Disk::from_vec(1024, &v), format!("{} random bytes", n))
        }
        1 => {
            let mut d = img.disk.clone();
            d.len = r.below(d.len + 1);
            (d.clone(), format!("cut to {}", d.len))
        }
        2 => {
            // A random superblock with valid magic, features and checksum.
            let mut d = img.disk.clone();
            let mut b = r.bytes(1024);
            w16(&mut b, 0x38, 0xef53);
            w32(&mut b, 0x4c, 1);
            w32(&mut b, 0x18, r.below(8) as u32);
            w32(&mut b, 0x60, *r.pick(&[0x2u32, 0x42, 0xc2, 0x2c2, 0x46]));
            w16(&mut b, 0x58, *r.pick(&[0u16, 1, 64, 127, 128, 256, 1024, 0x8000, 0xffff]));
            w16(&mut b, 0xfe, *r.pick(&[0u16, 1, 31, 32, 33, 63, 64, 1024, 0xffff]));
            w32(&mut b, 0x64, *r.pick(&[0u32, 0x400, 0x410]));
            for o in [0usize, 4, 0x14, 0x20, 0x28, 0x150] {
                if r.bool() {
                    w32(&mut b, o, *r.pick(&[0u32, 1, 2, 8, 0x7fff_ffff, 0xffff_ffff, 1000]));
                }
            }
            sb_csum(&mut b);
            d.write(1024, &b);
            (d, "random superblock".into())
        }
        3 => {
            // Blocks overwritten at random.
            let mut d = img.disk.clone();
            let blks: Vec<u64> = { let mut v: Vec<u64> = d.blocks.keys().copied().collect(); v.sort_unstable(); v };
            let k = r.range(1, 10);
            for _ in 0..k {
                let b = *r.pick(&blks);
                if b * img.cfg.bs as u64 > 2048 {
                    let v = match r.below(3) {
                        0 => r.bytes(img.cfg.bs as usize),
                        1 => vec![r.u8(); img.cfg.bs as usize],
                        _ => d.get(*r.pick(&blks)),
                    };
                    d.put(b, v);
                }
            }
            (d, format!("{} blocks overwritten", k))
        }
        _ => {
            let mut d = img.disk.clone();
            let mut b = vec![0; 1024];
            d.read(1024, &mut b);
            for _ in 0..r.range(1, 4) {
                let s = Struct { kind: StructKind::Sb, off: 1024, len: 1024 };
                let (o, w, be) = hot(&s, &b, r);
                let old = get(&b, o, w, be);
                let v = interesting(r, old, w, &s, img);
                set(&mut b, o, w, be, v);
            }
            sb_csum(&mut b);
            d.write(1024, &b);
            (d, "superblock fields".into())
        }
    }
}

/// The largest directory or journal that operations may meet on a disk
/// (None: cannot be told).
fn longest_walk(disk: &Disk) -> Option<u64> {
    let mut sb = vec![0; 1024];
    if !disk.read(1024, &mut sb) {
        return Some(0);
    }
    let lg = r32(&sb, 0x18);
    if lg > 6 {
        return Some(0);
    }
    let bs = 1024u64 << lg;
    let is64 = r32(&sb, 0x60) & INC_64BIT != 0;
    let ipg = r32(&sb, 0x28) as u64;
    let bpg = r32(&sb, 0x20) as u64;
    let isz = r16(&sb, 0x58) as u64;
    if ipg == 0 || bpg == 0 || isz < 128 {
        return Some(0);
    }
    let mut n = r32(&sb, 4) as u64;
    if is64 {
        n |= (r32(&sb, 0x150) as u64) << 32;
    }
    let ds = if is64 { r16(&sb, 0xfe) as u64 } else { 32 };
    let ds = ds.max(32);
    let groups = n.div_ceil(bpg);
    let total = groups.saturating_mul(ipg).min(u32::MAX as u64);
    if total > 60_000 {
        return None;
    }
    let per = (bs / ds).max(1);
    let jino = r32(&sb, 0xe0) as u64;
    let first = r32(&sb, 0x14) as u64 + 1;
    let mut max = 0;
    for g in 0..groups {
        // Both readings of the place of a descriptor.
        let mut d = vec![0; 64];
        let at = (first + g / per) * bs + (g % per) * ds;
        if !disk.read(at, &mut d) {
            continue;
        }
        let mut it = r32(&d, 8) as u64;
        if is64 && ds >= 64 {
            it |= (r32(&d, 0x28) as u64) << 32;
        }
        for i in 0..ipg {
            let ino = g * ipg + i + 1;
            let Some(off) = it.checked_mul(bs).and_then(|x| x.checked_add(i * isz)) else { continue };
            let mut b = [0; 128];
            if !disk.read(off, &mut b) {
                continue;
            }
            if r16(&b, 0) & 0xf000 == S_IFDIR || ino == jino {
                let size = r32(&b, 4) as u64 | (r32(&b, 0x6c) as u64) << 32;
                max = max.max(size);
            }
        }
    }
    Some(max)
}

// ------------------------------------------------------------ exploration

/// Format an error in every way.
fn show_err(e: Ext4Error) -> usize {
    let mut n = format!("{} {:?} {:#?}", e, e, e).len();
    n += e.as_io().map(|x| x.to_string().len()).unwrap_or(0);
    n += std::error::Error::source(&e).map(|x| x.to_string().len()).unwrap_or(0);
    let io: std::io::Error = e.into();
    n + format!("{} {:?} {:?}", io, io, io.kind()).len()
}

struct Tally {
    ops: u64,
    errs: u64,
    oks: u64,
    names: Vec<Vec<u8>>,
}

impl Tally {
    fn r<T>(&mut self, x: Result<T, Ext4Error>, f: impl FnOnce(T)) {
        self.ops += 1;
        match x {
            Ok(v) => {
                self.oks += 1;
                f(v)
            }
            Err(e) => {
                self.errs += 1;
                show_err(e);
            }
        }
    }
}

const CAP: u64 = 4 << 20;

/// Every public operation on one path.
fn poke(fs: &Ext4, p: &[u8], r: &mut Rng, t: &mut Tally) {
    let mut size = 0;
    t.r(fs.metadata(p), |m| {
        size = m.len();
        let _ = format!("{:?} {:?} {:?} {} {:o} {} {}", m, metav(&m), m.file_type(), m.is_dir(), m.mode(), m.uid(), m.gid());
    });
    t.r(fs.symlink_metadata(p), |m| {
        let _ = format!("{:?} {:?}", m, m.clone() == m);
    });
    t.r(fs.exists(p), |_| ());
    t.r(fs.canonicalize(p), |p| {
        let _ = format!("{:?} {} {:?}", p, p.display(), p.to_str());
    });
    t.r(fs.read_link(p), |p| {
        let _ = format!("{:?} {}", p, p.display());
    });
    if size <= CAP {
        t.r(fs.read(p), |_| ());
        t.r(fs.read_to_string(p), |_| ());
    }
    let mut names = Vec::new();
    let mut dir = None;
    t.r(fs.read_dir(p), |it| {
        let _ = format!("{:?}", it);
        dir = Some(it);
    });
    if let Some(mut it) = dir {
        let mut n = 0;
        while let Some(x) = it.next() {
            let mut ent = None;
            t.r(x, |e| ent = Some(e));
            if let Some(e) = ent {
                let _ = format!("{:?} {:?} {:?} {}", e, e.file_name(), e.path(), e.file_name().display());
                let _ = e.file_name().as_str().is_ok();
                t.r(e.file_type(), |f| {
                    let _ = format!("{:?} {}", f, ftv(f));
                });
                if n < 300 {
                    t.r(e.metadata(), |m| {
                        let _ = format!("{:?}", m);
                    });
                }
                let q: &[u8] = &e.path().as_ref().to_vec();
                let _ = PathBuf::try_from(q);
                names.push(q.to_vec());
            }
            n += 1;
            if n > 20_000 {
                break;
            }
        }
        let _ = it.next().is_none();
        let _ = format!("{:?}", it);
    }
    for x in names {
        if t.names.len() < 400 {
            t.names.push(x);
        }
    }
    let mut file = None;
    t.r(fs.open(p), |f| file = Some(f));
    if let Some(mut f) = file {
        let size = f.metadata().len();
        let bs = 1u64 << 10;
        let _ = format!("{:?} {:?}", f, f.metadata());
        let mut buf = vec![0; 3000];
        let far = size.min(16 << 20);
        for _ in 0..10 {
            let pos = match r.below(10) {
                0 => u64::MAX,
                1 => u64::MAX - r.below(5),
                2 => i64::MAX as u64,
                3 if size <= 64 << 20 => size.saturating_sub(r.below(3)),
                4 => size.saturating_add(r.below(3)),
                5 => r.below(far + 1),
                6 => r.below(far + 1) / bs * bs,
                _ => r.below(5000),
            };
            // A place far into a huge file may rightly take a while.
            if pos > 16 << 20 && pos < size {
                continue;
            }
            if r.bool() {
                t.r(f.seek_to(pos), |_| ());
            } else {
                let to = match r.below(4) {
                    0 => SeekFrom::Start(pos),
                    1 => SeekFrom::Current(if pos < size { (pos as i64).wrapping_sub(f.position() as i64) } else { *r.pick(&[i64::MIN, i64::MAX, -1]) }),
                    2 => SeekFrom::End(*r.pick(&[i64::MIN, i64::MAX, 1, 0])),
                    _ => SeekFrom::Start(u64::MAX),
                };
                let target = match to {
                    SeekFrom::Start(p) => p as i128,
                    SeekFrom::Current(d) => f.position() as i128 + d as i128,
                    SeekFrom::End(d) => size as i128 + d as i128,
                };
                if target > 16 << 20 && target < size as i128 {
                    continue;
                }
                match f.seek(to) {
                    Ok(_) => t.oks += 1,
                    Err(e) => {
                        t.errs += 1;
                        let _ = format!("{} {:?}", e, e);
                    }
                }
                t.ops += 1;
            }
            for _ in 0..r.range(1, 4) {
                let n = *r.pick(&[0usize, 1, 100, 1024, 3000]);
                if r.bool() {
                    t.r(f.read_bytes(&mut buf[..n]), |_| ());
                } else {
                    t.ops += 1;
                    match f.read(&mut buf[..n]) {
                        Ok(k) => {
                            t.oks += 1;
                            assert!(k <= n, "read returned {} bytes for a buffer of {}", k, n);
                        }
                        Err(e) => {
                            t.errs += 1;
                            let _ = format!("{} {:?}", e, e);
                        }
                    }
                }
            }
            let _ = format!("{:?} {}", f, f.position());
        }
    }
    let _ = Path::try_from(p).map(|p| format!("{:?} {}", p, p.display()));
}

/// Explore what is there, starting from the root and from known paths.
fn explore(fs: &Ext4, known: &[Vec<u8>], r: &mut Rng, max: usize, ctx: &mut Ctx) -> Tally {
    let mut t = Tally { ops: 0, errs: 0, oks: 0, names: vec![] };
    let _ = format!("{:?} {:?} {} {:?} {}", fs, fs.label(), fs.label().display(), fs.uuid(), fs.uuid());
    let _ = fs.label().to_str();
    let mut seen = std::collections::HashSet::new();
    let mut queue: Vec<Vec<u8>> = vec![b"/".to_vec()];
    for _ in 0..6.min(known.len()) {
        queue.push(r.pick(known).clone());
        queue.push(gen_path(r, known));
    }
    let mut done = 0;
    while done < max && !ctx.tired() {
        let Some(p) = (if queue.is_empty() { None } else { Some(queue.swap_remove(r.usize(queue.len()))) }) else { break };
        if !seen.insert(p.clone()) {
            continue;
        }
        done += 1;
        poke(fs, &p, r, &mut t);
        for n in std::mem::take(&mut t.names) {
            if queue.len() < 200 {
                queue.push(n);
            }
        }
    }
    t
}

fn hostile_opts(r: &mut Rng) -> GenOpts {
    let mut o = mixed_opts(r);
    o.blocks = *r.pick(&[200u64, 300, 500]);
    o.nodes = (6, 24);
    o.bigdir = if r.chance(1, 2) { 80 } else { 0 };
    o.max_lblk = *r.pick(&[60, 500, 3000]);
    o
}

fn hostile_base(r: &mut Rng) -> Image {
    let mut o = hostile_opts(r);
    if r.chance(1, 8) {
        o.bs = vec![16384, 65536];
    }
    if r.chance(1, 3) {
        if let Some(i) = journal::journaled(r, &o) {
            return i;
        }
    }
    if r.chance(1, 10) {
        o.huge = 100;
    }
    gen_image(r, &o)
}

fn variant(r: &mut Rng, img: &Image) -> (Disk, String) {
    match r.below(8) {
        0 => junk(r, img),
        1 | 2 => mutate(r, img, 8),
        _ => mutate(r, img, 3),
    }
}

/// Reading all group descriptors takes time in proportion to the volume,
/// which is too long for a (sparse) volume of petabytes that declares very
/// many groups.
fn shorten(d: &mut Disk) {
    let mut b = vec![0; 1024];
    if d.len > 1 << 32 && d.read(1024, &mut b) {
        let n = r32(&b, 4) as u64 | (r32(&b, 0x150) as u64) << 32;
        if n / (r32(&b, 0x20) as u64).max(1) > 1 << 20 {
            d.len = 1 << 26;
        }
    }
}

fn kind_of(what: &str) -> u64 {
    // The kinds of structure touched, without numbers.
    let s: String = what.chars().filter(|c| !c.is_ascii_digit()).collect();
    digest(s.as_bytes())
}

/// For img.rs: a hostile image.
pub fn hostile_image(seed: u64) -> Image {
    let mut r = Rng::new(seed);
    let mut img = hostile_base(&mut r);
    let mut d = img.disk.clone();
    if seed % 2 == 0 {
        for _ in 0..20 {
            if let Some(w) = attack(&mut r, &img, &mut d) {
                eprintln!("{}", w);
                break;
            }
        }
    } else {
        let (x, w) = variant(&mut r, &img);
        eprintln!("{}", w);
        d = x;
    }
    shorten(&mut d);
    img.disk = d;
    img
}

/// For img.rs: damage in one checksummed structure.
pub fn damaged_image(seed: u64) -> Image {
    let mut r = Rng::new(seed);
    let mut o = mixed_opts(&mut r);
    o.csum = Some(true);
    o.blocks = 300;
    o.nodes = (5, 20);
    o.bigdir = if r.chance(2, 3) { 150 } else { 0 };
    o.htree = 70;
    let mut img = gen_image(&mut r, &o);
    let list = of_kind(&img, |k| cat(k) <= 7 && !matches!(k, StructKind::Indirect(_)));
    let c = cat(&list[r.usize(list.len())].kind);
    let c = if r.bool() { c } else { r.below(8) as u8 };
    let of: Vec<&Struct> = list.iter().filter(|s| cat(&s.kind) == c).collect();
    if of.is_empty() {
        return img;
    }
    let s = (*r.pick(&of)).clone();
    let Some(mut b) = rd(&img.disk, &s) else { return img };
    if r.chance(1, 4) {
        let i = r.usize(b.len());
        b[i] ^= 1 << r.below(8);
    } else {
        let (o, w, be) = hot(&s, &b, &mut r);
        let old = get(&b, o, w, be);
        let v = interesting(&mut r, old, w, &s, &img);
        set(&mut b, o, w, be, v);
    }
    eprintln!("{:?}", s.kind);
    img.disk.write(s.off, &b);
    img
}

fn c01(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let img = hostile_base(&mut r);
    let all = paths_of(&img.model);
    let variants = if ctx.thorough { 30 } else { 14 };
    for v in 0..variants {
        if ctx.tired() {
            break;
        }
        let (disk, what) = variant(&mut r, &img);
        let dg = disk.digest();
        // Directories of enormous size are explored only where that is cheap.
        let walk = longest_walk(&disk);
        let small = matches!(walk, Some(n) if n <= CAP);
        if !small && what.split(';').count() > 1 {
            ctx.count("variants_with_enormous_directories_skipped", 1);
            continue;
        }
        ctx.note(format!("variant {}: {} {}", v, img.cfg.describe(), what));
        ctx.announce(&format!("variant {}: {}", v, what));
        ctx.distinct("kinds_of_damage", kind_of(&what));
        let mon = Mon::new(disk);
        ctx.eval(1);
        match Ext4::load(mon.boxed()) {
            Err(e) => {
                show_err(e);
                ctx.count("variants_refused_at_load", 1);
            }
            Ok(fs) => {
                ctx.count("variants_loaded", 1);
                let t = explore(&fs, &all, &mut r, if small { 40 } else { 8 }, ctx);
                ctx.eval(t.ops);
                ctx.count("operations_ok", t.oks);
                ctx.count("operations_refused", t.errs);
                if t.ops > 0 {
                    ctx.nontrivial(dg);
                }
            }
        }
    }
    ctx.sample(|| format!("{} last variant {}", img.cfg.describe(), ctx_what(&img)));
}

fn ctx_what(img: &Image) -> String {
    let mut m: BTreeMap<u8, usize> = BTreeMap::new();
    for s in &img.structs {
        *m.entry(cat(&s.kind)).or_insert(0) += 1;
    }
    format!("structures by category {:?}", m)
}

// ------------------------------------------------------------------ C02

fn c02(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let img = hostile_base(&mut r);
    if img.cfg.nblocks > 1 << 20 {
        ctx.eval(1);
        return;
    }
    let all = paths_of(&img.model);
    // Edges that one operation may execute.
    let vol = img.disk.len / 1024;
    for v in 0..if ctx.thorough { 30 } else { 14 } {
        if ctx.tired() {
            break;
        }
        let mut disk = img.disk.clone();
        let mut what = Vec::new();
        WANTED.with(|w| w.borrow_mut().clear());
        for _ in 0..r.range(1, 4) {
            if r.chance(2, 3) {
                if let Some(w) = attack(&mut r, &img, &mut disk) {
                    what.push(w);
                }
            } else if let Some(s) = pick_struct(&mut r, &img) {
                what.push(mutate_one(&mut r, &img, &mut disk, &s));
            }
        }
        let what = what.join("; ");
        let Some(walk) = longest_walk(&disk) else {
            ctx.count("variants_with_unknown_directory_sizes_skipped", 1);
            continue;
        };
        if walk > CAP {
            ctx.count("variants_with_enormous_directories_skipped", 1);
            continue;
        }
        ctx.note(format!("variant {}: {} {}", v, img.cfg.describe(), what));
        ctx.announce(&format!("variant {}: {}", v, what));
        let limit = 100_000_000 + vol * 20_000 + walk * 100;
        let mon = Mon::new(disk.clone());
        let s0 = cov::steps();
        cov::set_limit(limit);
        let fs = Ext4::load(mon.boxed());
        cov::set_limit(u64::MAX);
        ctx.eval(1);
        ctx.max("edges_for_load", cov::steps() - s0);
        let Ok(fs) = fs else {
            ctx.count("variants_refused_at_load", 1);
            continue;
        };
        ctx.count("variants_loaded", 1);
        let mut t = Tally { ops: 0, errs: 0, oks: 0, names: vec![] };
        let mut queue: Vec<Vec<u8>> = vec![b"/".to_vec()];
        for _ in 0..20.min(all.len()) {
            queue.push(r.pick(&all).clone());
        }
        queue.extend(WANTED.with(|w| w.borrow().clone()));
        let mut seen = std::collections::HashSet::new();
        while let Some(p) = queue.pop() {
            if ctx.tired() || seen.len() > 40 {
                break;
            }
            if !seen.insert(p.clone()) {
                continue;
            }
            for k in [OpK::Meta, OpK::SymMeta, OpK::ListMeta, OpK::Read, OpK::ReadLink, OpK::Canon, OpK::Open(r.next()), OpK::OpenAt(r.below(CAP), 3000)] {
                let op = Op { k, path: p.clone() };
                let size = match op.k {
                    OpK::Read | OpK::Open(_) | OpK::OpenAt(..) => fs.metadata(op.path.as_slice()).map(|m| m.len()).unwrap_or(0),
                    _ => 0,
                };
                if size > CAP && !matches!(op.k, OpK::OpenAt(..)) {
                    continue;
                }
                let s0 = cov::steps();
                cov::set_limit(match op.k {
                    // As many limits as there are entries.
                    OpK::ListMeta => u64::MAX,
                    _ => limit + size.min(CAP) * 100,
                });
                let got = if op.k == OpK::ListMeta { list_limited(&fs, &p, limit, &mut queue) } else { exec(&fs, &op) };
                cov::set_limit(u64::MAX);
                ctx.max("edges_for_one_operation", cov::steps() - s0);
                ctx.eval(1);
                t.ops += 1;
                if got.is_err() {
                    t.errs += 1;
                }
            }
        }
        ctx.count("operations_refused", t.errs);
        ctx.distinct("kinds_of_damage", kind_of(&what));
        ctx.nontrivial(disk.digest());
    }
    ctx.sample(|| format!("{} {}", img.cfg.describe(), ctx_what(&img)));
}

/// List with a limit per step; the iterator must come to an end.
fn list_limited(fs: &Ext4, p: &[u8], limit: u64, queue: &mut Vec<Vec<u8>>) -> Out {
    cov::set_limit(limit);
    let mut it = match fs.read_dir(p) {
        Ok(it) => it,
        Err(e) => return Out::Err(errk(&e)),
    };
    let mut n = 0u64;
    loop {
        cov::set_limit(limit);
        match it.next() {
            None => break,
            Some(Ok(e)) => {
                n += 1;
                if n < 60 {
                    cov::set_limit(limit);
                    let _ = e.metadata();
                    if queue.len() < 100 {
                        queue.push(e.path().as_ref().to_vec());
                    }
                }
                // A record has at least 12 bytes; directories have at
                // most CAP bytes.
                if n > CAP / 8 {
                    panic!("iterator yields more entries ({}) than the directory can hold", n);
                }
            }
            Some(Err(_)) => {
                n += 1_000_000_000;
                break;
            }
        }
    }
    if n >= 1_000_000_000 {
        return Out::Err(ErrK::Corrupt);
    }
    Out::List(vec![])
}

// ------------------------------------------------------------------ C03

fn c03(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let mut o = hostile_opts(&mut r);
    if r.chance(1, 10) {
        o.bs = vec![65536];
    }
    let img = if r.chance(2, 5) { journal::journaled(&mut r, &o).unwrap_or_else(|| gen_image(&mut r, &o)) } else { gen_image(&mut r, &o) };
    if img.cfg.nblocks > 1 << 20 {
        ctx.eval(1);
        return;
    }
    let all = paths_of(&img.model);
    let bound = (12 << 20) + 2 * img.disk.len as usize;
    ctx.max("bound", bound as u64);
    for v in 0..if ctx.thorough { 30 } else { 14 } {
        if ctx.tired() {
            break;
        }
        let (disk, what) = if r.chance(1, 6) { junk(&mut r, &img) } else { mutate(&mut r, &img, 4) };
        let small = matches!(longest_walk(&disk), Some(n) if n <= CAP);
        if !small && what.split(';').count() > 1 {
            ctx.count("variants_with_enormous_directories_skipped", 1);
            continue;
        }
        ctx.note(format!("variant {}: {} {}", v, img.cfg.describe(), what));
        ctx.announce(&format!("variant {}: bound {} {}", v, bound, what));
        ctx.distinct("kinds_of_damage", kind_of(&what));
        let dg = disk.digest();
        let ops: Vec<Op> = (0..40)
            .map(|i| match i {
                0 => Op { k: OpK::ListMeta, path: b"/".to_vec() },
                _ => rand_op(&mut r, &img.model, &all, u64::MAX),
            })
            .collect();
        let mon = Mon::new(disk);
        let mut left = [0usize; 2];
        // Twice: what remains after dropping everything must not grow.
        for pass in 0..2 {
            let live0 = mon::live();
            let bounded = |f: &mut dyn FnMut(), name: &str, ctx: &mut Ctx| {
                let mark = mon::mem_mark(bound);
                f();
                let (peak, biggest, refused) = mon::mem_stats(mark);
                ctx.max("peak_bytes_of_one_operation", peak as u64);
                ctx.max("largest_request", biggest as u64);
                if refused > 0 {
                    ctx.count("requests_refused_and_reported_as_errors", 1);
                }
                let _ = name;
            };
            let mut fs = None;
            bounded(&mut || fs = Some(Ext4::load(mon.boxed())), "load", ctx);
            ctx.eval(1);
            match fs.take().unwrap() {
                Err(e) => {
                    show_err(e);
                    if pass == 0 {
                        ctx.count("variants_refused_at_load", 1);
                    }
                }
                Ok(fs) => {
                    if pass == 0 {
                        ctx.count("variants_loaded", 1);
                        ctx.nontrivial(dg);
                    }
                    for op in ops.iter().take(if small { 40 } else { 4 }) {
                        if ctx.tired() {
                            break;
                        }
                        let size = fs.metadata(op.path.as_slice()).map(|m| m.len()).unwrap_or(0);
                        let mut keep = None;
                        let whole = matches!(op.k, OpK::Read | OpK::ReadStr);
                        if whole {
                            // Contents that fit may be returned.
                            let mark = mon::mem_mark(bound + 2 * size.min(CAP) as usize);
                            let res = fs.read(op.path.as_slice());
                            let (peak, _, refused) = mon::mem_stats(mark);
                            ctx.max("peak_bytes_of_reading_a_file", peak as u64);
                            match res {
                                Ok(v) => {
                                    if peak > bound / 2 + 2 * v.capacity() {
                                        ctx.fail("memory", format!("{} used {} bytes for a file of {}", op.show(), peak, v.len()));
                                    }
                                }
                                Err(e) => {
                                    if refused > 0 {
                                        ctx.count("whole_reads_refused_for_lack_of_memory", 1);
                                    }
                                    show_err(e);
                                }
                            }
                            ctx.eval(1);
                            continue;
                        }
                        if size > CAP && matches!(op.k, OpK::Open(_) | OpK::OpenAt(..)) {
                            continue;
                        }
                        let mark = mon::mem_mark(bound + 3 * size.min(CAP) as usize);
                        keep = keep.or_else(|| Some(exec(&fs, op)));
                        let (peak, biggest, _) = mon::mem_stats(mark);
                        drop(keep);
                        ctx.max("peak_bytes_of_one_operation", peak as u64);
                        ctx.max("largest_request", biggest as u64);
                        ctx.eval(1);
                    }
                }
            }
            left[pass] = mon::live().saturating_sub(live0);
        }
        if left[1] > 16 << 10 {
            // Nothing but the harness's own counters may remain.
            ctx.fail("leak", format!("{} bytes remain after dropping everything, {} the first time", left[1], left[0]));
        }
    }
    ctx.sample(|| format!("{} bound={} {}", img.cfg.describe(), bound, ctx_what(&img)));
}

// ------------------------------------------------------------------ C12

/// Whether the stored checksum matches the contents (so that no reader
/// could notice).
fn undetectable(img: &Image, disk: &Disk, s: &Struct) -> bool {
    // Counts that leave no room for the checksum are not an excuse.
    let n = s.len as usize;
    let b = rd(disk, s).unwrap_or_else(|| vec![0; n]);
    let (room, end) = match s.kind {
        StructKind::Extent(_) => (n - 4, 12 + 12 * r16(&b, 4) as usize),
        StructKind::DxRoot(_) => (n - 8, 0x20 + 8 * r16(&b, 0x22) as usize),
        StructKind::DxNode(_) => (n - 8, 8 + 8 * r16(&b, 10) as usize),
        _ => (0, 0),
    };
    if end > room {
        return false;
    }
    let mut d = disk.clone();
    img.refix_one(&mut d, s);
    rd(&d, s) == rd(disk, s)
}

/// Where the stored checksum of a structure is, low byte first.
fn sum_bytes(s: &Struct, b: &[u8]) -> Vec<usize> {
    let n = b.len();
    match &s.kind {
        StructKind::Sb => (0x3fc..0x400).collect(),
        StructKind::Bgd(_) => vec![0x1e, 0x1f],
        StructKind::Inode(_) => {
            let mut v = vec![0x7c, 0x7d];
            if n >= 0x84 && r16(b, 0x80) >= 4 {
                v.extend([0x82, 0x83]);
            }
            v
        }
        StructKind::Extent(_) => {
            let t = 12 + 12 * r16(b, 4) as usize;
            if t + 4 <= n { (t..t + 4).collect() } else { vec![] }
        }
        _ => (n - 4..n).collect(),
    }
}

/// Bytes that no reader needs, to be used for steering the checksum.
fn slack_bytes(s: &Struct, b: &[u8]) -> Vec<usize> {
    let n = b.len();
    match &s.kind {
        StructKind::Sb => (0x300..0x308).collect(),
        StructKind::Inode(_) => vec![0x08, 0x09, 0x0a, 0x0b, 0x0c, 0x0d, 0x0e, 0x0f],
        StructKind::Extent(_) => {
            let used = 12 + 12 * r16(b, 2) as usize;
            let t = 12 + 12 * r16(b, 4) as usize;
            if used + 8 <= t && t <= n { (used..used + 8).collect() } else { vec![] }
        }
        StructKind::DxNode(_) => {
            let used = 8 + 8 * r16(b, 10) as usize;
            if used + 16 <= n { (used..used + 8).collect() } else { vec![] }
        }
        StructKind::DxRoot(_) => {
            let used = 0x20 + 8 * r16(b, 0x22) as usize;
            if used + 16 <= n { (used..used + 8).collect() } else { vec![] }
        }
        StructKind::DirLeaf(_) => {
            // What follows the name in the last entry.
            let (mut o, mut last) = (0, 0);
            while o + 8 <= n - 12 {
                last = o;
                let l = r16(b, o + 4) as usize;
                if l < 8 {
                    return vec![];
                }
                o += l;
            }
            let used = last + 8 + b[last + 6] as usize;
            if used + 8 <= n - 12 { (used..used + 8).collect() } else { vec![] }
        }
        _ => vec![],
    }
}

/// Change bytes nobody needs so that the right checksum of the damaged
/// contents and the stored one are the same in the bits of `mask`.
fn steer(img: &Image, disk: &Disk, s: &Struct, b: &mut [u8], mask: u32) -> bool {
    let at = sum_bytes(s, b);
    let slack = slack_bytes(s, b);
    if at.len() < 4 || slack.is_empty() {
        return false;
    }
    let value = |b: &[u8]| at.iter().enumerate().fold(0u32, |v, (i, o)| v | (b[*o] as u32) << (8 * i));
    let right = |b: &[u8]| {
        let mut d = disk.clone();
        d.write(s.off, b);
        img.refix_one(&mut d, s);
        rd(&d, s).map(|x| value(&x)).unwrap_or(0)
    };
    let base = right(b);
    let mut want = (base ^ value(b)) & mask;
    // Gaussian elimination over the effects of single bits.
    let mut rows: Vec<(u32, u64)> = Vec::new();
    for k in 0..(slack.len() * 8) as u64 {
        let o = slack[(k / 8) as usize];
        b[o] ^= 1 << (k % 8);
        let mut e = (right(b) ^ base) & mask;
        b[o] ^= 1 << (k % 8);
        let mut set = 1u64 << k;
        while e != 0 {
            match rows.iter().find(|(x, _)| x.ilog2() == e.ilog2()) {
                Some((x, y)) => {
                    e ^= x;
                    set ^= y;
                }
                None => {
                    rows.push((e, set));
                    break;
                }
            }
        }
    }
    let mut flips = 0;
    loop {
        if want == 0 {
            break;
        }
        let Some((x, y)) = rows.iter().find(|(x, _)| x.ilog2() == want.ilog2()) else { return false };
        want ^= x;
        flips ^= y;
    }
    for k in 0..(slack.len() * 8) as u64 {
        if flips >> k & 1 != 0 {
            b[slack[(k / 8) as usize]] ^= 1 << (k % 8);
        }
    }
    (right(b) ^ value(b)) & mask == 0
}

fn c12(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let mut o = mixed_opts(&mut r);
    o.csum = Some(true);
    o.blocks = *r.pick(&[300u64, 500, 900]);
    if r.chance(1, 8) {
        o.bs = vec![16384, 65536];
    }
    o.huge = 5;
    o.bigdir = if r.chance(2, 3) { 150 } else { 0 };
    o.htree = 50;
    o.full_node = 5;
    let img = gen_image(&mut r, &o);
    let m = &img.model;
    let all = paths_of(m);
    let list = of_kind(&img, |k| cat(k) <= 7 && !matches!(k, StructKind::Indirect(_)));
    ctx.sample(|| format!("{} {}", img.cfg.describe(), ctx_what(&img)));
    let mut dg = Digests::default();
    // The intact filesystem: every checksum is right.
    ctx.announce("intact");
    match Ext4::load(Mon::new(img.disk.clone()).boxed()) {
        Ok(fs) => {
            let k = verify_tree(&fs, m, ctx, &Limits { full: 100_000 });
            ctx.eval(k);
        }
        Err(e) => ctx.fail("intact-refused", format!("load of the intact filesystem fails: {}", e)),
    }
    if ctx.failed > 0 {
        return;
    }
    ctx.count("intact_filesystems_read", 1);
    let cats: Vec<u8> = {
        let mut v: Vec<u8> = list.iter().map(|s| cat(&s.kind)).collect();
        v.sort_unstable();
        v.dedup();
        v
    };
    for _ in 0..if ctx.thorough { 80 } else { 30 } {
        if ctx.tired() {
            break;
        }
        let c = *r.pick(&cats);
        let of: Vec<&Struct> = list.iter().filter(|s| cat(&s.kind) == c).collect();
        let s = (*r.pick(&of)).clone();
        let mut disk = img.disk.clone();
        let Some(mut b) = rd(&disk, &s) else { continue };
        let n = b.len();
        let (what, key) = match r.below(12) {
            0..=2 => {
                let i = r.usize(n);
                let k = r.below(8);
                b[i] ^= 1 << k;
                (format!("bit {} of byte {}", k, i), i as u64 * 8 + k)
            }
            3..=6 => {
                let (o, w, be) = hot(&s, &b, &mut r);
                let old = get(&b, o, w, be);
                let v = interesting(&mut r, old, w, &s, &img);
                set(&mut b, o, w, be, v);
                (format!("{} bytes at {} set to {:#x}", w, o, v), mix(o as u64 ^ v << 20))
            }
            7 => {
                let o = r.usize(n);
                let l = r.range(1, 64).min((n - o) as u64) as usize;
                r.fill(&mut b[o..o + l]);
                (format!("{} random bytes at {}", l, o), mix((o * 100 + l) as u64))
            }
            8 => {
                b.fill(0);
                ("zeroed".into(), 1 << 60)
            }
            9 => {
                // Torn: a tail of zeros or of another structure.
                let o = r.usize(n);
                let t = (*r.pick(&of)).clone();
                let t = rd(&disk, &t).unwrap_or_default();
                for i in o..n {
                    b[i] = t.get(i).copied().unwrap_or(0);
                }
                (format!("torn at {}", o), mix(o as u64 ^ 1 << 61))
            }
            _ => {
                let others: Vec<&&Struct> = of.iter().filter(|x| x.off != s.off && x.len == s.len).collect();
                if others.is_empty() {
                    continue;
                }
                let t = (**r.pick(&others)).clone();
                let Some(x) = rd(&disk, &t) else { continue };
                b.copy_from_slice(&x);
                (format!("holds a copy of {:?} at {}", t.kind, t.off), mix(t.off ^ 1 << 62))
            }
        };
        // Checksums that are wrong in a way a sloppy comparison may forgive.
        let at = sum_bytes(&s, &b);
        let what = match r.below(10) {
            0 => {
                let v = *r.pick(&[0u8, 0, 0xff]);
                at.iter().for_each(|o| b[*o] = v);
                format!("{}, its checksum all {:#x}", what, v)
            }
            1 | 2 => {
                let mask = *r.pick(&[0xffffu32, 0xffff_0000, 0xff, 0xff00_0000, 0x7fff_ffff, 0xffff_fffe]);
                if steer(&img, &disk, &s, &mut b, mask) {
                    ctx.count("checksums_partly_right", 1);
                    format!("{}, its checksum right in the bits {:#x}", what, mask)
                } else {
                    what
                }
            }
            _ => what,
        };
        disk.write(s.off, &b);
        if rd(&disk, &s) == rd(&img.disk, &s) {
            continue;
        }
        if undetectable(&img, &disk, &s) {
            ctx.count("same_checksum_left_out", 1);
            continue;
        }
        if matches!(s.kind, StructKind::Sb) && r32(&b, 0x64) & RO_CSUM == 0 {
            ctx.count("checksums_undeclared_left_out", 1);
            continue;
        }
        // Structures on the way to the damaged one: the inode holding it.
        let what = format!("{:?} at {}: {}", s.kind, s.off, what);
        ctx.note(format!("{}; {}", img.cfg.describe(), what));
        ctx.announce(&what);
        ctx.count(&format!("corruptions_of_category_{}", c), 1);
        let mut hit = 0u64;
        let acceptable = |o: &Out| -> bool {
            match o {
                Out::Err(e) => bad(e),
                _ => false,
            }
        };
        match Ext4::load(Mon::new(disk).boxed()) {
            Err(e) => {
                ctx.eval(1);
                hit += 1;
                if !bad(&errk(&e)) {
                    ctx.fail("load-error-kind", format!("{}: load fails with {:?} {}", what, errk(&e), e));
                }
            }
            Ok(fs) => {
                ctx.eval(1);
                if matches!(s.kind, StructKind::Sb | StructKind::Bgd(_)) {
                    ctx.fail("undetected", format!("{}: load succeeds", what));
                    return;
                }
                let mut ops = Vec::new();
                // Operations that cannot succeed without relying on the
                // damaged structure.
                let mut must: Vec<Op> = Vec::new();
                let ino = match &s.kind {
                    StructKind::Inode(i) | StructKind::Extent(i) | StructKind::DirLeaf(i) | StructKind::DxRoot(i) | StructKind::DxNode(i) => Some(*i),
                    _ => None,
                };
                // Operations that must meet the damage.
                if let Some(i) = ino {
                    for (p, j) in m.all_paths().into_iter().chain(m.dir_paths()) {
                        let near = j == i || m.inodes.get(&i).is_some_and(|n| n.entries().iter().any(|e| e.ino == j));
                        if near && ops.len() < 60 {
                            let k = OPKINDS[r.usize(OPKINDS.len())].clone();
                            ops.push(Op { k, path: p.clone() });
                            if j == i && must.is_empty() {
                                must = relying(m, &img, &s, i, &p);
                            }
                            if j == i {
                                for k in [OpK::ListMeta, OpK::Read, OpK::ReadLink, OpK::SymMeta, OpK::Exists] {
                                    ops.push(Op { k, path: p.clone() });
                                }
                            }
                        }
                    }
                    r.shuffle(&mut ops);
                    ops.truncate(60);
                }
                for _ in 0..25 {
                    ops.push(rand_op(&mut r, m, &all, 100_000));
                }
                for op in &must {
                    let got = exec(&fs, op);
                    ctx.eval(1);
                    ctx.count("operations_that_must_fail", 1);
                    let failed = match &got {
                        Out::Err(e) | Out::ErrAfter(_, e) => bad(e),
                        Out::List(v) => matches!(s.kind, StructKind::Inode(_)) && v.iter().any(|e| matches!(&e.meta, Some(Err(k)) if bad(k))),
                        _ => false,
                    };
                    if !failed {
                        ctx.fail("undetected", format!("{}: {:?} needs it and gives {}", what, op, got.short()));
                        return;
                    }
                    hit += 1;
                }
                for op in &ops {
                    if ctx.tired() {
                        break;
                    }
                    if matches!(op.k, OpK::Read | OpK::ReadStr | OpK::Open(_)) {
                        if let Some(Ok(x)) = resolve(m, &op.path, true).any.first() {
                            if m.get(x.0).size > 1 << 20 {
                                continue;
                            }
                        }
                    }
                    let got = exec(&fs, op);
                    ctx.eval(1);
                    let verdict = if acceptable(&got) {
                        hit += 1;
                        None
                    } else {
                        match &got {
                            Out::ErrAfter(v, e) if bad(e) => {
                                hit += 1;
                                (!truthful(m, op, v, &mut dg, false)).then(|| format!("wrong entries before the error: {}", got.short()))
                            }
                            Out::List(v) if v.iter().any(|e| matches!(&e.meta, Some(Err(k)) if bad(k))) => {
                                hit += 1;
                                (!truthful(m, op, v, &mut dg, true)).then(|| format!("wrong entries: {}", got.short()))
                            }
                            _ => judge(m, op, &got, &mut dg),
                        }
                    };
                    if let Some(msg) = verdict {
                        ctx.fail("undetected", format!("{}: {}", what, msg));
                        return;
                    }
                }
            }
        }
        if hit > 0 {
            ctx.nontrivial(mix(digest(format!("{:?}", s.kind).as_bytes()) ^ key ^ mix(ctx.case)));
            ctx.count("corruptions_noticed", 1);
        } else {
            ctx.count("corruptions_without_effect", 1);
        }
    }
}

/// Operations on `path` (which leads to inode `i` without symlinks) that
/// have to look at the structure `s` of that inode.
fn relying(m: &Model, img: &Image, s: &Struct, i: u32, path: &[u8]) -> Vec<Op> {
    let n = m.get(i);
    let op = |k: OpK| Op { k, path: path.to_vec() };
    let mut v = Vec::new();
    let whole = |v: &mut Vec<Op>| match &n.kind {
        _ if n.encrypted() => {}
        Kind::Reg(_) if n.size > 0 && n.size <= 1 << 20 => v.push(op(OpK::Read)),
        Kind::Dir(_) => v.push(op(OpK::List)),
        Kind::Link(_) => v.push(op(OpK::ReadLink)),
        _ => {}
    };
    match &s.kind {
        StructKind::Inode(_) => {
            v.extend([op(OpK::Meta), op(OpK::SymMeta), op(OpK::Exists)]);
            whole(&mut v);
        }
        StructKind::Extent(_) => {
            let Some(b) = rd(&img.disk, s) else { return v };
            if r16(&b, 2) > 0 {
                let at = r32(&b, 12) as u64 * img.cfg.bs as u64;
                if at < n.size {
                    whole(&mut v);
                    if n.is_reg() && !n.encrypted() {
                        v.push(op(OpK::OpenAt(at, 1)));
                    }
                }
            }
        }
        _ => whole(&mut v),
    }
    v
}

fn bad(e: &ErrK) -> bool {
    matches!(e, ErrK::Corrupt | ErrK::Incompatible)
}

/// Entries (all of them, or some) are those of the directory, but for
/// metadata that could not be had.
fn truthful(m: &Model, op: &Op, v: &[Ent], dg: &mut Digests, whole: bool) -> bool {
    model_exec(m, op, dg).iter().any(|w| match w {
        Out::List(l) => {
            (!whole || l.len() == v.len())
                && v.iter().all(|e| {
                    l.iter().any(|x| {
                        x.name == e.name
                            && x.ft == e.ft
                            && x.path == e.path
                            && (x.meta == e.meta || matches!(&e.meta, Some(Err(k)) if bad(k)))
                    })
                })
        }
        _ => false,
    })
}

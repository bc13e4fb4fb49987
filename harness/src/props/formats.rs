//! C16 (supported and unsupported formats), C17 (path and name types).

use super::journal::{history, jopts, rejournal, JOpts};
use super::read::{load, WF};
use super::store::paths_of;
use crate::ctx::Ctx;
use crate::disk::Disk;
use crate::gen::*;
use crate::mkfs::*;
use crate::mon::Mon;
use crate::ops::*;
use crate::rng::{fnv, mix, Rng};
use crate::verify::{verify_tree, Limits};
use crate::Prop;
use ext4_view::{Component, DirEntryName, DirEntryNameError, Ext4, Label, Path, PathBuf, PathError, Uuid};
use std::collections::hash_map::DefaultHasher;
use std::ffi::{OsStr, OsString};
use std::hash::{Hash, Hasher};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C16",
            level: "exploration",
            quick: 2500,
            thorough: 250_000,
            cpu: 120,
            rule: "one case = one generated filesystem (a third of them with a journal that needs recovery) in a random supported feature configuration, verified whole, then reloaded with every single incompatible bit of the filesystem and of the journal flipped, with random feature words, other superblock fields randomised, journal superblock versions and checksum types, unsupported hash algorithms in every hashed directory, and things that are no filesystem. Non-trivial: distinct (feature word, supported or not) of filesystem and journal, and (hash algorithm, directory)",
            assumptions: WF,
            run: c16,
        },
        Prop {
            id: "C17",
            level: "exploration",
            quick: 2500,
            thorough: 250_000,
            cpu: 120,
            rule: "one case = several hundred byte strings (all strings of up to 7 bytes over {/ . a NUL 0xff} are enumerated over the first 98 cases, the others are random mixtures of separators, dots, names, lengths around 255, NULs and UTF-8) and pairs of them, through every conversion, method, comparison and hash of Path, PathBuf, Component, DirEntryName, Label and Uuid, against reference definitions and std::path. Non-trivial: distinct strings with a repeated separator, a dot component, a NUL, invalid UTF-8 or a component within 2 bytes of the limit, and distinct pairs",
            assumptions: &["std::path on Unix is the reference for join, push and components"],
            run: c17,
        },
    ]
}

// ------------------------------------------------------------------ C16

/// Incompatible features that the documentation lists as supported.
const SUPPORTED: u32 = INC_FILETYPE | INC_RECOVER | INC_EXTENTS | INC_64BIT | INC_FLEXBG | INC_CSUM_SEED | INC_ENCRYPT;

fn with_sb(img: &Image, f: impl FnOnce(&mut [u8])) -> Disk {
    let mut d = img.disk.clone();
    let mut b = vec![0; 1024];
    d.read(1024, &mut b);
    f(&mut b);
    if r32(&b, 0x64) & RO_CSUM != 0 {
        sb_csum(&mut b);
    }
    d.write(1024, &b);
    d
}

fn load_kind(d: Disk) -> Option<ErrK> {
    match Ext4::load(Mon::new(d).boxed()) {
        Ok(_) => None,
        Err(e) => Some(errk(&e)),
    }
}

fn c16(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let o = GenOpts {
        blocks: *r.pick(&[200u64, 400]),
        huge: 0,
        nodes: *r.pick(&[(3, 10), (8, 24)]),
        htree: 60,
        bigdir: if r.chance(1, 6) { 80 } else { 0 },
        max_lblk: 200,
        file_blocks: 8,
        bs: vec![1024, 1024, 2048, 4096, 8192, 65536],
        encrypt: false,
        ..Default::default()
    };
    let mut uuid = None;
    let img = if r.chance(1, 3) {
        let jo = JOpts { jlen: (40, 90), txns: (1, 3), sb: false, ..jopts(&mut r) };
        match history(&mut r, &o, &jo) {
            Some(h) => {
                uuid = Some(h.uuid);
                h.image(&mut r, true)
            }
            None => gen_image(&mut r, &o),
        }
    } else {
        gen_image(&mut r, &o)
    };
    ctx.note(img.cfg.describe());
    ctx.sample(|| format!("{} journal={}", img.cfg.describe(), uuid.is_some()));
    let Some((fs, _)) = load(&img, ctx) else { return };
    let k = verify_tree(&fs, &img.model, ctx, &Limits { full: 1 << 18 });
    ctx.eval(k);
    if ctx.failed > 0 {
        return;
    }
    let inc = img.cfg.incompat;
    let bad = |w: u32| w & !SUPPORTED != 0 || w & INC_FILETYPE == 0;
    // Each bit, and several.
    let mut words: Vec<u32> = (0..32).map(|b| inc ^ 1 << b).collect();
    for _ in 0..12 {
        let mut w = inc;
        for _ in 0..r.range(2, 5) {
            w ^= 1 << r.below(32);
        }
        words.push(w);
    }
    words.push(r.u32());
    words.push(0);
    for w in words {
        if !bad(w) {
            continue;
        }
        let ro = if r.chance(1, 4) { Some(r.u32()) } else { None };
        let d = with_sb(&img, |b| {
            w32(b, 0x60, w);
            if let Some(x) = ro {
                w32(b, 0x64, x);
            }
        });
        let got = load_kind(d);
        ctx.eval(1);
        ctx.nontrivial(mix(w as u64 ^ 1 << 40));
        ctx.count("unsupported_words", 1);
        if got != Some(ErrK::Incompatible) {
            ctx.fail("not-refused", format!("incompatible features {:#x} (well-formed with {:#x}): load gives {:?}", w, inc, got));
            return;
        }
    }
    // Supported words that mean no other layout, any other feature bits, and
    // other fields that are none of the library's business.
    for _ in 0..4 {
        let flip = *r.pick(&[0u32, INC_FLEXBG, INC_ENCRYPT, INC_FLEXBG | INC_ENCRYPT]);
        let ro = r.u32() & !RO_CSUM | (img.cfg.ro & RO_CSUM);
        let co = r.u32() & !4 | (img.cfg.compat & 4);
        let mut what = String::new();
        let junk: Vec<(usize, u32)> = (0..r.below(4))
            .map(|_| {
                let f = *r.pick(&[
                    0x8usize, 0xc, 0x10, 0x2c, 0x30, 0x40, 0x44, 0x50, 0x88, 0xa4, 0xc8, 0xd0, 0xdc, 0xe4, 0xe8, 0x100, 0x108, 0x10c, 0x14c, 0x154, 0x164,
                    0x168, 0x16c, 0x170, 0x178, 0x180, 0x198, 0x1cc, 0x200, 0x240, 0x274, 0x280,
                ]);
                (f, r.u32())
            })
            .collect();
        let mut d = with_sb(&img, |b| {
            w32(b, 0x60, inc ^ flip);
            w32(b, 0x5c, co);
            w32(b, 0x64, ro);
            for (f, v) in &junk {
                w32(b, *f, *v);
            }
            what = format!("incompat {:#x} compat {:#x} ro {:#x} fields {:x?}", inc ^ flip, co, ro, junk);
        });
        // (Group descriptor checksums of the older kind.)
        if !img.cfg.csum && ro & 0x10 != 0 {
            for s in &img.structs {
                if let StructKind::Bgd(g) = s.kind {
                    let mut b = vec![0; s.len as usize];
                    d.read(s.off, &mut b);
                    bgd_csum(&img.cfg, g, &mut b);
                    d.write(s.off, &b);
                }
            }
        }
        ctx.note(what.clone());
        match Ext4::load(Mon::new(d).boxed()) {
            Err(e) => {
                ctx.eval(1);
                ctx.fail("refused", format!("{}: {:?} [{}]", what, e, img.cfg.describe()));
                return;
            }
            Ok(fs) => {
                let k = verify_tree(&fs, &img.model, ctx, &Limits { full: 1 << 18 });
                ctx.eval(k);
            }
        }
        ctx.nontrivial(mix((inc ^ flip) as u64 ^ 2 << 40));
        ctx.distinct("supported_incompatible_words", (inc ^ flip) as u64);
        ctx.count("supported_words", 1);
    }
    // Not a filesystem.
    for k in 0..4 {
        let d = match k {
            0 => {
                let bit = r.below(16);
                with_sb(&img, |b| {
                    let m = r16(b, 0x38);
                    w16(b, 0x38, m ^ 1 << bit);
                })
            }
            1 => {
                let mut d = img.disk.clone();
                let v = if r.bool() { vec![0; 1024] } else { r.bytes(1024) };
                d.write(1024, &v);
                d
            }
            2 => {
                let n = r.range(0, 3000) as usize;
                let v = r.bytes(n);
                Disk::from_vec(1024, &v)
            }
            _ => Disk::new(1024, r.range(0, 100)),
        };
        ctx.eval(1);
        ctx.count("not_a_filesystem", 1);
        if load_kind(d).is_none() {
            ctx.fail("not-refused", format!("something that is not a filesystem is loaded (kind {})", k));
            return;
        }
    }
    // The journal.
    if let Some(uuid) = uuid {
        let at = img.jblocks[0];
        let jsb = img.disk.get(at);
        let be = |b: &[u8], o: usize| u32::from_be_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]]);
        let have = be(&jsb, 0x28);
        let try_jsb = |o: usize, v: u32| {
            let mut b = jsb.clone();
            if o == 0x50 {
                b[o] = v as u8;
            } else {
                b[o..o + 4].copy_from_slice(&v.to_be_bytes());
            }
            rejournal("jsb", &uuid, &mut b);
            let mut d = img.disk.clone();
            d.put(at, b);
            d
        };
        let mut words: Vec<u32> = (0..32).map(|b| have ^ 1 << b).collect();
        words.extend([0, 1, 2, 3, 8, 0xa, 0xb, 0x10, 0x18, 0x1a, 0x1b, r.u32(), r.u32()]);
        for w in words {
            let bad = w & 0x12 != 0x12 || w & !0x13 != 0;
            if !bad {
                // With or without the bit for revocations it is the same.
                if let Ok(fs) = Ext4::load(Mon::new(try_jsb(0x28, w)).boxed()) {
                    let k = verify_tree(&fs, &img.model, ctx, &Limits { full: 1 << 16 });
                    ctx.eval(k);
                }
                continue;
            }
            let got = load_kind(try_jsb(0x28, w));
            ctx.eval(1);
            ctx.nontrivial(mix(w as u64 ^ 3 << 40));
            ctx.count("unsupported_journal_words", 1);
            if got != Some(ErrK::Incompatible) {
                ctx.fail("journal-not-refused", format!("journal features {:#x}: load gives {:?}", w, got));
                return;
            }
            // It does not matter where nothing has to be recovered.
            if r.chance(1, 8) {
                let mut i2 = img.clone();
                i2.disk = try_jsb(0x28, w);
                let d = with_sb(&i2, |b| {
                    let f = r32(b, 0x60) & !INC_RECOVER;
                    w32(b, 0x60, f);
                });
                let got = load_kind(d);
                ctx.eval(1);
                if got == Some(ErrK::Incompatible) {
                    ctx.fail("refused", format!("journal features {:#x} on a filesystem that needs no recovery: load gives {:?}", w, got));
                    return;
                }
            }
        }
        for (o, v, name) in [
            (4usize, 3u32, "journal superblock version 1"),
            (0x50, 0, "journal checksum type 0"),
            (0x50, 1, "journal checksum type 1"),
            (0x50, 2, "journal checksum type 2"),
            (0x50, 3, "journal checksum type 3"),
            (0x50, r.range(5, 255) as u32, "unknown journal checksum type"),
        ] {
            let got = load_kind(try_jsb(o, v));
            ctx.eval(1);
            ctx.nontrivial(mix(v as u64 ^ (o as u64) << 32 ^ 4 << 40));
            if got != Some(ErrK::Incompatible) {
                ctx.fail("journal-not-refused", format!("{} ({}): load gives {:?}", name, v, got));
                return;
            }
        }
        // A block that needs unescaping is not passed off as it stands.
        let descs: Vec<&Struct> = img.structs.iter().filter(|s| matches!(s.kind, StructKind::Journal("jdesc"))).collect();
        if !descs.is_empty() {
            let s = *r.pick(&descs);
            let blk = s.off / img.cfg.bs as u64;
            let mut b = img.disk.get(blk);
            let f = be(&b, 16) | 1;
            b[16..20].copy_from_slice(&f.to_be_bytes());
            rejournal("jdesc", &uuid, &mut b);
            let mut d = img.disk.clone();
            d.put(blk, b);
            let got = load_kind(d);
            ctx.eval(1);
            ctx.count("escaped_blocks", 1);
            if got != Some(ErrK::Incompatible) {
                ctx.fail("journal-not-refused", format!("a journal with an escaped block: load gives {:?}", got));
                return;
            }
        }
    }
    // Hash algorithms.
    let roots: Vec<&Struct> = img.structs.iter().filter(|s| matches!(s.kind, StructKind::DxRoot(_))).collect();
    if uuid.is_some() {
        return;
    }
    for s in roots.iter().take(6) {
        let StructKind::DxRoot(ino) = s.kind else { continue };
        let Some((path, _)) = img.model.dir_paths().into_iter().find(|x| x.1 == ino) else { continue };
        let v = match r.below(3) {
            0 => *r.pick(&[0u8, 3, 4, 5, 6]),
            1 => r.range(3, 255) as u8,
            _ => *r.pick(&[0u8, 0x81, 0x82, 0x11, 0x12, 255]),
        };
        let mut d = img.disk.clone();
        let mut b = vec![0; s.len as usize];
        d.read(s.off, &mut b);
        b[0x1c] = v;
        d.write(s.off, &b);
        img.refix_one(&mut d, s);
        let Ok(fs) = Ext4::load(Mon::new(d).boxed()) else {
            ctx.fail("refused", format!("hash algorithm {} in directory {}", v, esc(&path)));
            return;
        };
        let node = img.model.get(ino);
        let mut names: Vec<Vec<u8>> = node.entries().iter().map(|e| e.name.clone()).filter(|n| n != b"." && n != b"..").take(8).collect();
        for _ in 0..3 {
            names.push(gen_name(&mut r, true));
        }
        for n in names {
            let mut p = path.clone();
            if p.last() != Some(&b'/') {
                p.push(b'/');
            }
            p.extend_from_slice(&n);
            for k in [OpK::SymMeta, OpK::Canon, OpK::Exists, OpK::Read] {
                let op = Op { k, path: p.clone() };
                let got = exec(&fs, &op);
                ctx.eval(1);
                if got != Out::Err(ErrK::Incompatible) {
                    ctx.fail("hash-not-refused", format!("hash algorithm {}: {} gives {}", v, op.show(), got.short()));
                    return;
                }
            }
            ctx.count("lookups_refused", 4);
        }
        ctx.nontrivial(mix(v as u64 ^ (ino as u64) << 8 ^ 5 << 40 ^ mix(ctx.case)));
        ctx.distinct("hash_algorithms_refused", v as u64);
    }
    let _ = paths_of;
}

// ------------------------------------------------------------------ C17

fn pvalid(b: &[u8]) -> bool {
    !b.contains(&0) && b.split(|c| *c == b'/').all(|c| c.len() <= 255)
}

fn perr_ok(b: &[u8], e: &PathError) -> bool {
    match e {
        PathError::ContainsNull => b.contains(&0),
        PathError::ComponentTooLong => b.split(|c| *c == b'/').any(|c| c.len() > 255),
        _ => false,
    }
}

fn nerr_ok(b: &[u8], e: &DirEntryNameError) -> bool {
    match e {
        DirEntryNameError::Empty => b.is_empty(),
        DirEntryNameError::TooLong => b.len() > 255,
        DirEntryNameError::ContainsNull => b.contains(&0),
        DirEntryNameError::ContainsSeparator => b.contains(&b'/'),
        _ => false,
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum Comp {
    Root,
    Cur,
    Parent,
    Normal(Vec<u8>),
}

fn comps(b: &[u8]) -> Vec<Comp> {
    let mut v = Vec::new();
    if b.first() == Some(&b'/') {
        v.push(Comp::Root);
    }
    for c in b.split(|c| *c == b'/').filter(|c| !c.is_empty()) {
        v.push(match c {
            b"." => Comp::Cur,
            b".." => Comp::Parent,
            c => Comp::Normal(c.to_vec()),
        });
    }
    v
}

fn comp_of(c: &Component<'_>) -> Comp {
    match c {
        Component::RootDir => Comp::Root,
        Component::CurDir => Comp::Cur,
        Component::ParentDir => Comp::Parent,
        Component::Normal(n) => Comp::Normal(n.as_ref().to_vec()),
    }
}

fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn gen_string(r: &mut Rng) -> Vec<u8> {
    let mut v = Vec::new();
    for _ in 0..r.below(9) {
        match r.below(14) {
            0..=3 => v.push(b'/'),
            4 => v.extend_from_slice(b"."),
            5 => v.extend_from_slice(b".."),
            6 => v.extend_from_slice(*r.pick(&["é", "😁", "名", "a\u{301}", "\u{feff}", "\n", "\\", "\"", " "].map(|s| s.as_bytes()))),
            7 => {
                let n = r.range(1, 4) as usize;
                let x = r.bytes(n);
                v.extend(x.into_iter().map(|b| if b == 0 { 1 } else { b }));
            }
            8 => {
                let n = *r.pick(&[1usize, 2, 100, 127, 128, 253, 254, 255, 256, 257, 300]);
                v.extend(std::iter::repeat_n(*r.pick(b"abz.\xff"), n));
            }
            9 if r.chance(1, 4) => v.push(0),
            _ => {
                let n = r.range(1, 6);
                for _ in 0..n {
                    v.push(*r.pick(b"abcXYZ019._-~"));
                }
            }
        }
    }
    v
}

fn interesting(b: &[u8]) -> bool {
    b.windows(2).any(|w| w == b"//")
        || b.contains(&0)
        || std::str::from_utf8(b).is_err()
        || b.split(|c| *c == b'/').any(|c| c == b"." || c == b".." || (253..=257).contains(&c.len()))
        || b.last() == Some(&b'/')
}

macro_rules! want {
    ($ctx:expr, $ok:expr, $sig:expr, $($m:tt)*) => {
        if !$ok {
            $ctx.fail($sig, format!($($m)*));
            return;
        }
    };
}

macro_rules! arrays {
    ($ctx:expr, $b:expr, $($n:literal)*) => {
        match $b.len() {
            $($n => {
                let a: &[u8; $n] = $b.as_slice().try_into().unwrap();
                let p = Path::try_from(a);
                let q = PathBuf::try_from(a);
                let d = DirEntryName::try_from(a);
                want!($ctx, p.map(|p| p.as_ref().to_vec()).ok() == Path::try_from($b.as_slice()).map(|p| p.as_ref().to_vec()).ok(), "array", "{} as array", esc($b));
                want!($ctx, q.map(|p| AsRef::<[u8]>::as_ref(&p).to_vec()).ok() == Path::try_from($b.as_slice()).map(|p| p.as_ref().to_vec()).ok(), "array", "{} as array", esc($b));
                want!($ctx, d.map(|p| p.as_ref().to_vec()).ok() == DirEntryName::try_from($b.as_slice()).map(|p| p.as_ref().to_vec()).ok(), "array", "{} as array", esc($b));
            })*
            _ => {}
        }
    };
}

fn one(b: &Vec<u8>, ctx: &mut Ctx) {
    ctx.eval(1);
    ctx.what = format!("string {}", esc(b));
    if interesting(b) {
        ctx.nontrivial(fnv(b));
    }
    let valid = pvalid(b);
    let text = std::str::from_utf8(b).ok();
    let lossy = String::from_utf8_lossy(b).into_owned();
    // Construction.
    {
        let mut outs: Vec<(&str, Result<Vec<u8>, PathError>)> = Vec::new();
        let ps = |p: Result<Path<'_>, PathError>| p.map(|p| p.as_ref().to_vec());
        let bs = |p: Result<PathBuf, PathError>| p.map(|p| AsRef::<[u8]>::as_ref(&p).to_vec());
        let os = OsStr::from_bytes(b);
        outs.push(("Path from bytes", ps(Path::try_from(b.as_slice()))));
        outs.push(("Path from OsStr", ps(Path::try_from(os))));
        outs.push(("Path from std Path", ps(Path::try_from(std::path::Path::new(os)))));
        outs.push(("PathBuf from bytes", bs(PathBuf::try_from(b.as_slice()))));
        outs.push(("PathBuf from Vec", bs(PathBuf::try_from(b.clone()))));
        outs.push(("PathBuf from OsString", bs(PathBuf::try_from(OsString::from_vec(b.clone())))));
        outs.push(("PathBuf from std PathBuf", bs(PathBuf::try_from(std::path::PathBuf::from(os)))));
        if let Some(s) = text {
            let o = s.to_string();
            outs.push(("Path from str", ps(Path::try_from(s))));
            outs.push(("Path from String", ps(Path::try_from(&o))));
            outs.push(("PathBuf from str", bs(PathBuf::try_from(s))));
            outs.push(("PathBuf from &String", bs(PathBuf::try_from(&o))));
            outs.push(("PathBuf from String", bs(PathBuf::try_from(o))));
        }
        for (how, o) in outs {
            let ok = match &o {
                Ok(v) => valid && v == b,
                Err(e) => !valid && perr_ok(b, e),
            };
            want!(ctx, ok, "construct", "{} of {}: {:?}", how, esc(b), o);
            if let Err(e) = &o {
                let _ = format!("{} {:?}", e, e);
            }
        }
        let a = catch_unwind(AssertUnwindSafe(|| Path::new(b.as_slice()).as_ref().to_vec()));
        let c = catch_unwind(AssertUnwindSafe(|| AsRef::<[u8]>::as_ref(&PathBuf::new(b.as_slice())).to_vec()));
        want!(ctx, a.as_ref().ok() == valid.then_some(b), "new", "Path::new({}) panics: {}", esc(b), a.is_err());
        want!(ctx, c.as_ref().ok() == valid.then_some(b), "new", "PathBuf::new({}) panics: {}", esc(b), c.is_err());
    }
    arrays!(ctx, b, 0 1 2 3 4 5 6 7 8 16 32 255 256);
    // Names.
    let nvalid = !b.is_empty() && b.len() <= 255 && !b.contains(&0) && !b.contains(&b'/');
    let mut names = vec![DirEntryName::try_from(b.as_slice())];
    if let Some(s) = text {
        names.push(DirEntryName::try_from(s));
    }
    for n in &names {
        let ok = match n {
            Ok(n) => {
                nvalid
                    && n.as_ref() == b.as_slice()
                    && n.as_str().ok() == text
                    && n.display().to_string() == lossy
                    && *n == b.as_slice()
                    && *n == *b
            }
            Err(e) => !nvalid && nerr_ok(b, e) && !e.to_string().is_empty(),
        };
        want!(ctx, ok, "name", "DirEntryName of {}: {:?}", esc(b), n);
        let _ = format!("{:?}", n);
    }
    match Component::normal(b.as_slice()) {
        Ok(Component::Normal(n)) => {
            want!(ctx, nvalid && n.as_ref() == b.as_slice(), "component", "Component::normal({})", esc(b));
        }
        Ok(c) => {
            want!(ctx, false, "component", "Component::normal({}) gives {:?}", esc(b), c);
        }
        Err(e) => {
            want!(ctx, !nvalid && nerr_ok(b, &e), "component", "Component::normal({}): {:?}", esc(b), e);
        }
    }
    if !valid {
        return;
    }
    let p = Path::try_from(b.as_slice()).unwrap();
    let q = PathBuf::try_from(b.as_slice()).unwrap();
    // Views.
    let abs = b.first() == Some(&b'/');
    want!(ctx, p.is_absolute() == abs && q.is_absolute() == abs, "absolute", "{}", esc(b));
    want!(ctx, p.to_str().ok() == text && q.to_str().ok() == text, "to_str", "{}", esc(b));
    want!(ctx, p.display().to_string() == lossy && q.display().to_string() == lossy, "display", "{}: {:?}", esc(b), p.display().to_string());
    let _ = format!("{:?} {:?}", p, q);
    want!(ctx, q.as_path() == p && p == q && q == p && PathBuf::from(p) == q && q.clone() == q && q.as_path().as_ref() == b.as_slice(), "views", "{}", esc(b));
    let std_p: &std::path::Path = p.into();
    let std_q: std::path::PathBuf = q.clone().into();
    want!(ctx, std_p.as_os_str().as_bytes() == b.as_slice() && std_q.as_os_str().as_bytes() == b.as_slice(), "to-std", "{}", esc(b));
    // Components.
    let want = comps(b);
    for (how, got) in [("Path", p.components().collect::<Vec<_>>()), ("PathBuf", q.components().collect::<Vec<_>>())] {
        let g: Vec<Comp> = got.iter().map(comp_of).collect();
        want!(ctx, g == want, "components", "{} components of {}: {:?}", how, esc(b), got);
        for (c, w) in got.iter().zip(&want) {
            let bytes: &[u8] = match w {
                Comp::Root => b"/",
                Comp::Cur => b".",
                Comp::Parent => b"..",
                Comp::Normal(v) => v,
            };
            want!(ctx, *c == bytes && !(*c == [bytes, b"x"].concat()), "component-eq", "{:?} and {}", c, esc(bytes));
            let _ = format!("{:?}", c);
        }
    }
    // (After the end it stays at the end.)
    let mut it = p.components();
    for _ in 0..want.len() {
        it.next();
    }
    want!(ctx, it.next().is_none() && it.next().is_none(), "components", "{}: items after the end", esc(b));
    // std::path, which drops interior dots (and keeps a leading one).
    use std::path::Component as S;
    let s: Vec<Comp> = std_p
        .components()
        .map(|c| match c {
            S::RootDir => Comp::Root,
            S::CurDir => Comp::Cur,
            S::ParentDir => Comp::Parent,
            S::Normal(n) => Comp::Normal(n.as_bytes().to_vec()),
            S::Prefix(_) => Comp::Cur,
        })
        .collect();
    let ours: Vec<Comp> = p
        .components()
        .map(|c| comp_of(&c))
        .enumerate()
        .filter(|(i, c)| *i == 0 || *c != Comp::Cur)
        .map(|x| x.1)
        .collect();
    want!(ctx, ours == s, "components-std", "{}: {:?}, std {:?}", esc(b), ours, s);
}

fn two(a: &Vec<u8>, b: &Vec<u8>, ctx: &mut Ctx) {
    ctx.eval(1);
    ctx.what = format!("strings {} {}", esc(a), esc(b));
    ctx.nontrivial(mix(fnv(a) ^ mix(fnv(b))));
    // Names and labels compare by their bytes.
    if let (Ok(x), Ok(y)) = (DirEntryName::try_from(a.as_slice()), DirEntryName::try_from(b.as_slice())) {
        want!(ctx, (x == y) == (a == b) && x.cmp(&y) == a.cmp(b) && x.partial_cmp(&y) == Some(a.cmp(b)), "name-order", "{} {}", esc(a), esc(b));
        want!(ctx, a != b || hash(&x) == hash(&y), "name-hash", "{}", esc(a));
        let (c, d) = (Component::Normal(x), Component::Normal(y));
        want!(ctx, (c == d) == (a == b) && c.cmp(&d) == a.cmp(b) && (a != b || hash(&c) == hash(&d)), "component-order", "{} {}", esc(a), esc(b));
    }
    if !pvalid(a) {
        return;
    }
    let (p, q) = (Path::try_from(a.as_slice()).unwrap(), PathBuf::try_from(a.as_slice()).unwrap());
    let bv = pvalid(b);
    let mut t = q.clone();
    let pushed = catch_unwind(AssertUnwindSafe(|| t.push(b))).is_ok();
    want!(ctx, pushed == bv, "push", "{} push {}: panics {}", esc(a), esc(b), !pushed);
    let j1 = catch_unwind(AssertUnwindSafe(|| p.join(b)));
    let j2 = catch_unwind(AssertUnwindSafe(|| q.join(b)));
    want!(ctx, j1.is_ok() == bv && j2.is_ok() == bv, "join", "{} join {}: panics", esc(a), esc(b));
    if !bv {
        want!(ctx, t == q, "push", "{} changed by a failed push", esc(a));
        return;
    }
    let (j1, j2) = (j1.unwrap(), j2.unwrap());
    let mut s = std::path::PathBuf::from(OsStr::from_bytes(a));
    s.push(OsStr::from_bytes(b));
    let s = s.into_os_string().into_vec();
    want!(ctx, t == s && j1 == s && j2 == s, "push-std", "{} join {} gives {:?} {:?} {:?}, std {}", esc(a), esc(b), t, j1, j2, esc(&s));
    want!(ctx, q == *a, "join", "{} changed by join", esc(a));
    want!(ctx, pvalid(&s), "join", "{} join {} is not a path", esc(a), esc(b));
    let x = Path::try_from(b.as_slice()).unwrap();
    let y = PathBuf::try_from(b.as_slice()).unwrap();
    want!(ctx, p.join(x) == s && q.join(&y) == s, "join", "{} join {}", esc(a), esc(b));
    // Order, equality, hash.
    want!(ctx, (p == x) == (a == b) && (q == y) == (a == b) && (p == y) == (a == b) && (p == *b) == (a == b) && (q == b.as_slice()) == (a == b), "path-eq", "{} {}", esc(a), esc(b));
    want!(ctx, p.cmp(&x) == a.cmp(b) && q.cmp(&y) == a.cmp(b) && p.partial_cmp(&x) == Some(a.cmp(b)) && q.partial_cmp(&y) == Some(a.cmp(b)), "path-order", "{} {}", esc(a), esc(b));
    if a == b {
        want!(ctx, hash(&p) == hash(&x) && hash(&q) == hash(&y), "path-hash", "{}", esc(a));
    } else {
        ctx.count("unequal_pairs", 1);
    }
    // Components in order: the kinds first, then the bytes.
    let cs: Vec<Component<'_>> = p.components().chain(x.components()).collect();
    for c in cs.iter().take(6) {
        for d in cs.iter().take(6) {
            let e = comp_of(c) == comp_of(d);
            want!(ctx, (*c == *d) == e && (c.cmp(d) == std::cmp::Ordering::Equal) == e && (!e || hash(c) == hash(d)), "component-order", "{:?} {:?}", c, d);
            want!(ctx, c.cmp(d) == d.cmp(c).reverse(), "component-order", "{:?} {:?}", c, d);
        }
    }
}

fn fixed(r: &mut Rng, ctx: &mut Ctx) {
    let mk = |r: &mut Rng| -> [u8; 16] {
        let mut l = [0u8; 16];
        match r.below(4) {
            0 => r.fill(&mut l),
            1 => {
                let n = r.usize(17);
                r.fill(&mut l[..n]);
            }
            _ => {
                let s = gen_string(r);
                let n = s.len().min(16);
                l[..n].copy_from_slice(&s[..n]);
                if n < 16 && r.chance(1, 4) {
                    let k = n + 1;
                    if k < 16 {
                        r.fill(&mut l[k..]);
                    }
                }
            }
        }
        l
    };
    let a = mk(r);
    let b = if r.chance(1, 3) { a } else { mk(r) };
    ctx.eval(2);
    ctx.nontrivial(mix(fnv(&a) ^ 9));
    let (x, y) = (Label::new(a), Label::new(b));
    let head = a.split(|c| *c == 0).next().unwrap();
    want!(ctx, x.as_bytes() == &a, "label", "{:?}", a);
    want!(ctx, x.to_str().ok() == std::str::from_utf8(head).ok(), "label", "to_str of {:?}: {:?}", a, x.to_str());
    want!(ctx, x.display().to_string() == String::from_utf8_lossy(head), "label", "display of {:?}: {}", a, x.display());
    want!(ctx, (x == y) == (a == b) && x.cmp(&y) == a.cmp(&b) && (a != b || hash(&x) == hash(&y)), "label-order", "{:?} {:?}", a, b);
    let _ = format!("{:?}", x);
    let (u, v) = (Uuid::new(a), Uuid::new(b));
    let hex: String = a.iter().map(|b| format!("{:02x}", b)).collect();
    let txt = format!("{}-{}-{}-{}-{}", &hex[..8], &hex[8..12], &hex[12..16], &hex[16..20], &hex[20..]);
    want!(ctx, u.as_bytes() == &a && u.to_string() == txt && format!("{:?}", u) == txt, "uuid", "{:?}: {}", a, u);
    want!(ctx, (u == v) == (a == b) && u.cmp(&v) == a.cmp(&b) && (a != b || hash(&u) == hash(&v)), "uuid-order", "{:?} {:?}", a, b);
}

/// The `i`th string over a small alphabet.
fn nth(mut i: u64) -> Option<Vec<u8>> {
    let al = b"/.a\0\xff";
    let mut len = 0u32;
    while i >= 5u64.pow(len) {
        i -= 5u64.pow(len);
        len += 1;
    }
    if len > 7 {
        return None;
    }
    let mut v = Vec::new();
    for _ in 0..len {
        v.push(al[(i % 5) as usize]);
        i /= 5;
    }
    Some(v)
}

fn c17(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    ctx.eval(2);
    want!(ctx, Path::ROOT == b"/" && PathBuf::empty() == b"" && PathBuf::default() == b"" && Path::SEPARATOR == b'/' && DirEntryName::MAX_LEN == 255, "constants", "constants");
    // Enumeration.
    for i in ctx.case * 1000..(ctx.case + 1) * 1000 {
        let Some(s) = nth(i) else { break };
        one(&s, ctx);
        ctx.count("enumerated_strings", 1);
        if ctx.failed > 0 {
            return;
        }
    }
    // All pairs of short strings (over several cases).
    if ctx.case < 156 {
        let a = nth(ctx.case).unwrap();
        for i in 0..156 {
            two(&a, &nth(i).unwrap(), ctx);
            ctx.count("enumerated_pairs", 1);
            if ctx.failed > 0 {
                return;
            }
        }
    }
    let v: Vec<Vec<u8>> = (0..150).map(|_| gen_string(&mut r)).collect();
    ctx.sample(|| format!("{} {} {}", esc(&v[0]), esc(&v[1]), esc(&v[2])));
    for s in &v {
        one(s, ctx);
        if ctx.failed > 0 {
            return;
        }
    }
    for _ in 0..150 {
        let a = r.pick(&v).clone();
        let b = match r.below(4) {
            0 => a.clone(),
            1 => {
                let mut b = a.clone();
                b.push(*r.pick(b"/.a"));
                b
            }
            _ => r.pick(&v).clone(),
        };
        two(&a, &b, ctx);
        if ctx.failed > 0 {
            return;
        }
    }
    for _ in 0..40 {
        fixed(&mut r, ctx);
        if ctx.failed > 0 {
            return;
        }
    }
}

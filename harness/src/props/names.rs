//! C06 (listing), C07 (lookup), C08 (resolution), C18 (encryption), C19 (errors).

use super::read::{label_uuid, load, WF};
use crate::ctx::Ctx;
use crate::gen::*;
use crate::model::*;
use crate::ops::*;
use crate::rng::{mix, Rng};
use crate::Prop;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C06",
            level: "exploration",
            quick: 5000,
            thorough: 500000,
            cpu: 120,
            rule: "one case = one generated filesystem with a random tree and a large directory (linear or hash tree, depth 0-2, deleted entries, slack with stale entries, empty blocks, shuffled and fragmented blocks); every directory is listed through several spellings of its path and compared as a set with the model. Non-trivial: a directory with more than one block, a hash tree, deleted entries or slack; distinct by its contents and layout",
            assumptions: WF,
            run: c06,
        },
        Prop {
            id: "C07",
            level: "exploration",
            quick: 1500,
            thorough: 150000,
            cpu: 120,
            rule: "one case = one generated filesystem with large directories (hash trees of depth 0-2 for half-MD4 and TEA, signed and unsigned, zero and random seeds, colliding hashes split over leaves, linear); every present name and as many absent near-miss names are looked up. Non-trivial: distinct (name, present, layout) looked up in a directory of more than one block",
            assumptions: WF,
            run: c07,
        },
        Prop {
            id: "C08",
            level: "exploration",
            quick: 900,
            thorough: 90000,
            cpu: 120,
            rule: "one case = one generated tree rich in symlinks (relative, absolute, chained, looping, dangling, long, decorated with ., .. and repeated separators) and a few hundred paths, resolved through canonicalize, metadata, symlink_metadata, exists, read_link, read and read_dir and compared with a component-by-component Unix resolver. Non-trivial: a path that met at least one symlink, dot component or redundant separator; distinct by (path, result)",
            assumptions: WF,
            run: c08,
        },
        Prop {
            id: "C18",
            level: "exploration",
            quick: 2400,
            thorough: 240000,
            cpu: 120,
            rule: "one case = one generated tree where random directories, files and symlinks carry the encryption flag; all operations run on all paths through and around them. Non-trivial: distinct operation applied to an encrypted inode or below an encrypted directory",
            assumptions: WF,
            run: c18,
        },
        Prop {
            id: "C19",
            level: "exploration",
            quick: 700,
            thorough: 70000,
            cpu: 120,
            rule: "one case = one generated tree and random valid and invalid path arguments (relative, NUL, overlong components, missing, through non-directories, trailing separators, loops) against all operations and all argument types; results and error kinds compared with the documented conditions and with each other. Non-trivial: an operation expected to fail, or an agreement between two operations; distinct by (operation, error, path)",
            assumptions: WF,
            run: c19,
        },
    ]
}

fn check(fs: &ext4_view::Ext4, m: &Model, op: &Op, dg: &mut Digests, ctx: &mut Ctx, sig: &str) -> Out {
    let got = exec(fs, op);
    ctx.eval(1);
    if let Some(msg) = judge(m, op, &got, dg) {
        ctx.fail(sig, msg);
    }
    got
}

fn c06(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let bigdir = match r.below(5) {
        0 => 0,
        1 => 3000,
        2 => 60,
        _ => 600,
    };
    let o = GenOpts { bigdir, htree: 50, nodes: (10, 80), huge: 15, file_blocks: 2, symlinks: 10, blocks: 6000, ..Default::default() };
    let img = gen_image(&mut r, &o);
    ctx.note(img.cfg.describe());
    let Some((fs, _)) = load(&img, ctx) else { return };
    let m = &img.model;
    let mut dg = Digests::default();
    for (p, ino) in m.dir_paths() {
        let n = m.get(ino);
        ctx.note(format!("{} | {} {} entries", img.cfg.describe(), n.note, n.entries().len()));
        if n.note.contains("htree") || n.size > img.cfg.bs as u64 || n.entries().len() > 5 {
            ctx.nontrivial(mix(digest(&p) ^ ino as u64 ^ n.size ^ crate::rng::fnv(n.note.as_bytes())));
        }
        if n.note.contains("htree") {
            ctx.count("htree_dirs_listed", 1);
        }
        if n.entries().len() > 20 {
            ctx.sample(|| format!("{} {} entries={}", img.cfg.describe(), n.note, n.entries().len()));
        }
        ctx.count("entries_compared", n.entries().len() as u64);
        check(&fs, m, &Op { k: OpK::List, path: p.clone() }, &mut dg, ctx, "listing");
        if r.chance(1, 3) {
            check(&fs, m, &Op { k: OpK::ListMeta, path: decorate(&mut r, &p) }, &mut dg, ctx, "listing");
        }
    }
}

fn near_miss(r: &mut Rng, name: &[u8]) -> Vec<u8> {
    let mut v = name.to_vec();
    match r.below(6) {
        0 if v.len() < 255 => v.push(b'x'),
        1 if v.len() > 1 => {
            v.pop();
        }
        2 => {
            let i = r.usize(v.len());
            v[i] ^= 0x20;
        }
        3 => {
            let i = r.usize(v.len());
            v[i] ^= 0x80;
        }
        4 if v.len() < 255 => v.insert(0, b'.'),
        _ => {
            let i = r.usize(v.len());
            v[i] = v[i].wrapping_add(1);
        }
    }
    v
}

fn c07(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let bigdir = *r.pick(&[40usize, 200, 800, 2500]);
    let collisions = r.chance(1, 2);
    let o = GenOpts {
        bigdir,
        full_node: 8,
        htree: 80,
        nodes: (8, 40),
        huge: 10,
        file_blocks: 1,
        symlinks: 5,
        collisions,
        blocks: 7000,
        bs: vec![1024, 1024, 1024, 2048, 4096, 4096, 8192, 65536],
        ..Default::default()
    };
    let img = gen_image(&mut r, &o);
    ctx.note(img.cfg.describe());
    let Some((fs, _)) = load(&img, ctx) else { return };
    let m = &img.model;
    let mut dg = Digests::default();
    for (p, ino) in m.dir_paths() {
        let n = m.get(ino);
        let what = format!("{} | {} {} entries", img.cfg.describe(), n.note, n.entries().len());
        ctx.note(what);
        if n.note.contains("htree") {
            ctx.count("htree_dirs", 1);
            ctx.distinct("htree_shape", crate::rng::fnv(n.note.as_bytes()));
            if n.note.contains("spans=0") {
            } else {
                ctx.count("dirs_with_collision_spans", 1);
            }
            if n.entries().len() > 20 {
                ctx.sample(|| format!("{} {}", img.cfg.describe(), n.note));
            }
        }
        let multi = n.size > img.cfg.bs as u64;
        let names: Vec<Vec<u8>> = n.entries().iter().map(|e| e.name.clone()).collect();
        let cap = if ctx.thorough { 4000 } else { 1200 };
        let skip = (names.len() / cap).max(1);
        for (i, e) in names.iter().enumerate() {
            if ctx.tired() {
                break;
            }
            if i % skip == 0 {
                ctx.count("present_lookups", 1);
                check(&fs, m, &Op { k: OpK::SymMeta, path: join(&p, e) }, &mut dg, ctx, "lookup-present");
                if multi {
                    ctx.nontrivial(mix(digest(e) ^ n.size ^ digest(&p)));
                }
            }
            if i % (2 * skip) == 0 && e != b"." && e != b".." {
                let x = near_miss(&mut r, e);
                if x.contains(&b'/') || x.contains(&0) || x == b"." || x == b".." {
                    continue;
                }
                ctx.count("absent_lookups", 1);
                check(&fs, m, &Op { k: OpK::Exists, path: join(&p, &x) }, &mut dg, ctx, "lookup-absent");
                if multi {
                    ctx.nontrivial(mix(digest(&x) ^ n.size ^ digest(&p) ^ 1));
                }
            }
        }
        for x in [&b"erased"[..], b"gone", b"stale_ent", b"d", b"...", b". ", b"lost+found", &[0xff], &[b'a'; 255]] {
            check(&fs, m, &Op { k: OpK::SymMeta, path: join(&p, x) }, &mut dg, ctx, "lookup-absent");
        }
    }
}

fn c08(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let mut o = GenOpts { symlinks: 45, nodes: (15, 70), htree: 15, huge: 3, file_blocks: 2, plain_names: true, specials: true, blocks: 2500, ..Default::default() };
    if r.chance(1, 4) {
        o.plain_names = false;
    }
    let mut mk = gen_tree(&mut r, &o);
    let chain = chain_dir(&mut r, &mut mk);
    let img = mk.finish();
    ctx.note(img.cfg.describe());
    let Some((fs, _)) = load(&img, ctx) else { return };
    let m = &img.model;
    let mut dg = Digests::default();
    let mut all: Vec<Vec<u8>> = m.all_paths().into_iter().map(|x| x.0).collect();
    all.extend(m.dir_paths().into_iter().map(|x| x.0));
    all.extend(chain);
    r.shuffle(&mut all);
    ctx.sample(|| format!("{} paths={} e.g. {}", img.cfg.describe(), all.len(), esc(&all[all.len() / 2])));
    for i in 0..260 {
        if ctx.tired() {
            break;
        }
        let mut p = if i < all.len() { all[i].clone() } else { gen_path(&mut r, &all) };
        if r.chance(1, 40) {
            // Near the length limit.
            let want = r.range(4080, 4110) as usize;
            let mut q = b"/".to_vec();
            while q.len() + p.len() + 3 < want {
                q.extend_from_slice(if r.bool() { b"./" } else { b"//" });
            }
            while q.len() + p.len() < want {
                q.push(b'/');
            }
            q.extend_from_slice(&p[1..]);
            p = q;
        }
        let k = match r.below(9) {
            0..=2 => OpK::Canon,
            3 => OpK::Exists,
            4 => OpK::Meta,
            5 => OpK::SymMeta,
            6 => OpK::ReadLink,
            7 => OpK::List,
            _ => OpK::Read,
        };
        if k == OpK::Read {
            if let Some(Ok((i, _))) = resolve(m, &p, true).any.first() {
                if m.get(*i).size > 4 << 20 {
                    continue;
                }
            }
        }
        let op = Op { k, path: p };
        let rr = resolve(m, &op.path, true);
        let got = check(&fs, m, &op, &mut dg, ctx, "resolution");
        if rr.symlinks > 0 || op.path.windows(2).any(|w| w == b"//" || w == b"/.") {
            ctx.nontrivial(mix(digest(&op.path) ^ digest(got.short().as_bytes())));
        }
        ctx.max("symlinks_followed", rr.symlinks as u64);
        ctx.max("components", rr.comps as u64);
        ctx.count("symlinks_followed", rr.symlinks as u64);
    }
}

/// A directory of symlink chains around the limit of 40, added under a
/// directory that has room: a fresh tree below a second root entry is not
/// possible once written, so this rewrites the root directory.
fn chain_dir(r: &mut Rng, mk: &mut crate::mkfs::Mk) -> Vec<Vec<u8>> {
    let root = mk.model.get(2).clone();
    if root.entries().iter().any(|e| e.name == b"chain") {
        return vec![];
    }
    let dir = mk.alloc_ino();
    let extents = mk.cfg.extents;
    let n = r.range(38, 43) as usize;
    let mut ents = Vec::new();
    let a = gen_attr(r);
    let m = gen_mapping(r, extents);
    let file = mk.add_bytes_file(&a, b"end".to_vec(), m);
    ents.push(DEnt { name: b"c0".to_vec(), ino: file, ft: 1 });
    let style = r.below(3);
    for i in 1..=n {
        let t = match style {
            0 => format!("c{}", i - 1),
            1 => format!("/chain/c{}", i - 1),
            _ => format!("../chain/./c{}", i - 1),
        };
        let m = gen_mapping(r, extents);
        let l = mk.add_symlink(&a, t.as_bytes(), m);
        ents.push(DEnt { name: format!("c{}", i).into_bytes(), ino: l, ft: 7 });
    }
    // Self links, growing links and a directory link.
    let long = {
        let mut v = Vec::new();
        while v.len() < 900 {
            v.extend_from_slice(b"dirlink/");
        }
        v.extend_from_slice(b"c0");
        v
    };
    for (name, t) in [
        (&b"self"[..], b"self".to_vec()),
        (b"grow", b"grow/x".to_vec()),
        (b"ping", b"pong".to_vec()),
        (b"pong", b"/chain/ping".to_vec()),
        (b"dirlink", b".".to_vec()),
        (b"up", b"..".to_vec()),
        (b"rootlink", b"/".to_vec()),
        (b"many", long),
    ] {
        let m = gen_mapping(r, extents);
        let l = mk.add_symlink(&a, &t, m);
        ents.push(DEnt { name: name.to_vec(), ino: l, ft: 7 });
    }
    // Links that make paths of about 4096 bytes.
    let mut near: Vec<Vec<u8>> = Vec::new();
    for (name, abs) in [(&b"padr"[..], false), (b"pada", true)] {
        if r.chance(3, 4) {
            continue;
        }
        let mut t = if abs { b"/chain/".to_vec() } else { vec![] };
        for _ in 0..r.range(1, 430) {
            t.extend_from_slice(b"../chain/");
        }
        t.extend_from_slice(if r.bool() { b"." } else { b"../chain" });
        let m = gen_mapping(r, extents);
        let l = mk.add_symlink(&a, &t, m);
        ents.push(DEnt { name: name.to_vec(), ino: l, ft: 7 });
        for _ in 0..3 {
            let have = t.len() + if abs { 0 } else { 7 };
            let want = r.range(4093, 4099) as usize;
            let mut q = Vec::new();
            while have + q.len() + 1 + 255 < want {
                q.extend_from_slice(b"/../chain");
            }
            q.push(b'/');
            if r.bool() {
                // An existing name at the end.
                while have + q.len() + 2 < want {
                    let left = want - have - q.len() - 2;
                    if left >= 9 && left != 10 {
                        q.extend_from_slice(b"../chain/");
                    } else {
                        q.extend_from_slice(b"./");
                    }
                }
                q.extend_from_slice(b"c0");
            } else {
                let n = want.saturating_sub(have + q.len()).clamp(1, 255);
                q.extend(std::iter::repeat_n(b'x', n));
            }
            near.push([b"/chain/", name, &q].concat());
        }
    }
    // A link that expands to thousands of components, many times.
    if r.chance(1, 8) {
        let unit: &[u8] = *r.pick(&[&b"./"[..], b"dirlink/../chain/", b".//", b"../chain/"]);
        let mut t = Vec::new();
        let max = r.range(1000, 3880) as usize;
        // (Links in the target count towards the limit as well.)
        let links = unit.starts_with(b"dir");
        while t.len() < if links { 50 } else { max } {
            t.extend_from_slice(unit);
        }
        t.push(b'.');
        let m = gen_mapping(r, extents);
        let l = mk.add_symlink(&a, &t, m);
        ents.push(DEnt { name: b"exp".to_vec(), ino: l, ft: 7 });
        for k in [r.range(2, 38), 39, 40, 41] {
            let mut q = b"/chain".to_vec();
            for _ in 0..k {
                q.extend_from_slice(b"/exp");
            }
            if r.bool() {
                q.extend_from_slice(b"/c0");
            }
            near.push(q);
        }
    }
    let spec = gen_dirspec(r, &mk.cfg, &GenOpts::default(), false);
    mk.put_dir(dir, 2, &a, &ents, &spec);
    // Rewrite the root with the extra entry.
    let mut re: Vec<DEnt> = root.entries().iter().filter(|e| e.name != b"." && e.name != b"..").cloned().collect();
    re.push(DEnt { name: b"chain".to_vec(), ino: dir, ft: 2 });
    let spec = gen_dirspec(r, &mk.cfg, &GenOpts::default(), false);
    let at = crate::mkfs::Attr { perm: root.mode & 0o7777, uid: root.uid, gid: root.gid, flags: 0 };
    mk.structs.retain(|s| !matches!(s.kind, crate::mkfs::StructKind::Inode(2) | crate::mkfs::StructKind::DirLeaf(2) | crate::mkfs::StructKind::DxRoot(2) | crate::mkfs::StructKind::DxNode(2) | crate::mkfs::StructKind::Extent(2) | crate::mkfs::StructKind::Indirect(2)));
    mk.put_dir(2, 2, &at, &re, &spec);
    let mut v: Vec<Vec<u8>> = near;
    for i in [1, 2, 37, 38, 39, 40, 41, 42, 43] {
        v.push(format!("/chain/c{}", i).into_bytes());
        v.push(format!("/chain/dirlink/c{}", i).into_bytes());
        v.push(format!("/chain/dirlink/dirlink/c{}", i).into_bytes());
    }
    let mut q = b"/chain".to_vec();
    for _ in 0..r.range(36, 44) {
        q.extend_from_slice(b"/dirlink");
    }
    v.push(q.clone());
    q.extend_from_slice(b"/c0");
    v.push(q);
    for x in ["self", "grow", "ping", "pong", "up/chain/up", "rootlink/chain/c1", "many", "self/", "up/", "dirlink/.."] {
        v.push(format!("/chain/{}", x).into_bytes());
    }
    v
}

fn c18(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let o = GenOpts { encrypt: true, symlinks: 25, nodes: (20, 80), htree: 40, file_blocks: 3, bigdir: if r.chance(1, 4) { 200 } else { 0 }, ..Default::default() };
    let img = gen_image(&mut r, &o);
    ctx.note(img.cfg.describe());
    let Some((fs, _)) = load(&img, ctx) else { return };
    let m = &img.model;
    let mut dg = Digests::default();
    let mut paths: Vec<Vec<u8>> = m.all_paths().into_iter().map(|x| x.0).collect();
    // Below encrypted directories.
    let encdirs: Vec<(Vec<u8>, u32)> = m.dir_paths().into_iter().filter(|x| m.get(x.1).encrypted()).collect();
    for (p, ino) in &encdirs {
        for e in m.get(*ino).entries().iter().take(6) {
            paths.push(join(p, &e.name));
        }
        paths.push(join(p, b"absent"));
    }
    ctx.sample(|| format!("{} encrypted dirs={} paths={}", img.cfg.describe(), encdirs.len(), paths.len()));
    ctx.count("encrypted_dirs", encdirs.len() as u64);
    r.shuffle(&mut paths);
    for p in &paths {
        if ctx.tired() {
            break;
        }
        let res = resolve(m, p, true);
        let target = res.any.first().and_then(|x| x.as_ref().ok()).map(|x| x.0);
        for k in OPKINDS {
            let big = target.map(|i| m.get(i).size > 1 << 20).unwrap_or(false);
            if big && matches!(k, OpK::Read | OpK::ReadStr | OpK::Open(_)) {
                continue;
            }
            let op = Op { k, path: p.clone() };
            let got = check(&fs, m, &op, &mut dg, ctx, "encrypted");
            let enc = got.err() == Some(&ErrK::Encrypted);
            if enc {
                ctx.count("encrypted_refusals", 1);
            }
            if enc || target.map(|i| m.get(i).encrypted()).unwrap_or(false) {
                ctx.nontrivial(mix(digest(p) ^ crate::rng::fnv(format!("{:?}", op.k).as_bytes())));
            }
        }
    }
}

fn bad_path(r: &mut Rng, all: &[Vec<u8>]) -> Vec<u8> {
    let p = r.pick(all).clone();
    match r.below(9) {
        0 => p[1..].to_vec(),
        1 => {
            let mut v = p;
            let i = r.usize(v.len() + 1);
            v.insert(i, 0);
            v
        }
        2 => join(&p, &[b'n'; 256]),
        3 => join(&p, &[b'n'; 255]),
        4 => vec![],
        5 => {
            let mut v = b"/".to_vec();
            while v.len() < r.range(4090, 4100) as usize {
                v.extend_from_slice(b"a/");
            }
            v
        }
        6 => [p, b"/".to_vec()].concat(),
        7 => join(&p, &gen_name(r, false)),
        _ => b".".to_vec(),
    }
}

fn c19(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let o = GenOpts { symlinks: 25, nodes: (15, 60), htree: 20, file_blocks: 3, specials: true, encrypt: r.chance(1, 6), ..Default::default() };
    let mut mk = gen_tree(&mut r, &o);
    if r.bool() {
        chain_dir(&mut r, &mut mk);
    }
    let img = mk.finish();
    ctx.note(img.cfg.describe());
    let Some((fs, _)) = load(&img, ctx) else { return };
    let m = &img.model;
    let mut dg = Digests::default();
    let mut all: Vec<Vec<u8>> = m.all_paths().into_iter().map(|x| x.0).collect();
    all.push(b"/".to_vec());
    ctx.sample(|| format!("{} paths={}", img.cfg.describe(), all.len()));
    r.shuffle(&mut all);
    for i in 0..150 {
        if ctx.tired() {
            break;
        }
        let p = match r.below(3) {
            _ if i < all.len() => all[i].clone(),
            0 => bad_path(&mut r, &all),
            1 => gen_path(&mut r, &all),
            _ => r.pick(&all).clone(),
        };
        let res = resolve(m, &p, true);
        let node = res.any.first().and_then(|x| x.as_ref().ok()).map(|x| m.get(x.0));
        if node.map(|n| n.size > 1 << 20).unwrap_or(false) {
            continue;
        }
        let ft = node.map(|n| n.ft()).unwrap_or(0);
        let mut outs = Vec::new();
        for k in OPKINDS {
            let op = Op { k: k.clone(), path: p.clone() };
            let got = check(&fs, m, &op, &mut dg, ctx, "error-kind");
            if let Some(e) = got.err() {
                ctx.nontrivial(mix(digest(&p) ^ crate::rng::fnv(format!("{:?} {:?} {}", k, e, ft).as_bytes())));
                ctx.distinct("op_error_node", crate::rng::fnv(format!("{:?} {:?} {}", k, e, ft).as_bytes()));
            }
            outs.push(got);
        }
        // Agreement between the operations.
        let get = |k: &OpK| &outs[OPKINDS.iter().position(|x| x == k).unwrap()];
        let meta_ok = !get(&OpK::Meta).is_err();
        let exists = get(&OpK::Exists) == &Out::Bool(true);
        let mut agree = |what: &str, x: bool| {
            ctx.eval(1);
            if !x {
                ctx.fail("disagree", format!("{} for {}", what, esc(&p)));
            }
        };
        agree("exists <=> metadata", meta_ok == exists);
        agree("metadata <=> canonicalize", meta_ok != get(&OpK::Canon).is_err());
        agree("open <=> read", get(&OpK::Open(7)).is_err() == get(&OpK::Read).is_err());
        agree("read is ok if read_to_string is", get(&OpK::ReadStr).is_err() || !get(&OpK::Read).is_err());
        if !r.chance(1, 4) {
            continue;
        }
        variants(&fs, &p, &mut r, ctx);
    }
    label_uuid(&fs, m, ctx);
}

/// All argument types give the same result; errors convert to io::Error of
/// the documented category.
fn variants(fs: &ext4_view::Ext4, p: &[u8], r: &mut Rng, ctx: &mut Ctx) {
    use ext4_view::{Ext4Error, Path, PathBuf};
    use std::io::ErrorKind;
    let base = meta_out(fs.metadata(p));
    let mut outs: Vec<(&str, Out)> = Vec::new();
    if let Ok(x) = Path::try_from(p) {
        outs.push(("Path", meta_out(fs.metadata(x))));
    }
    if let Ok(x) = PathBuf::try_from(p.to_vec()) {
        outs.push(("PathBuf", meta_out(fs.metadata(&x))));
    }
    if let Ok(s) = std::str::from_utf8(p) {
        outs.push(("str", meta_out(fs.metadata(s))));
        let st = s.to_string();
        outs.push(("String", meta_out(fs.metadata(&st))));
        outs.push(("std Path", meta_out(fs.metadata(std::path::Path::new(s)))));
        let pb = std::path::PathBuf::from(s);
        outs.push(("std PathBuf", meta_out(fs.metadata(pb.as_path()))));
        if let Ok(x) = PathBuf::try_from(pb) {
            outs.push(("PathBuf from std", meta_out(fs.metadata(&x))));
        }
    }
    {
        use std::os::unix::ffi::OsStrExt;
        let os = std::ffi::OsStr::from_bytes(p);
        outs.push(("OsStr", meta_out(fs.metadata(os))));
        let oss = os.to_os_string();
        if let Ok(x) = PathBuf::try_from(oss) {
            outs.push(("PathBuf from OsString", meta_out(fs.metadata(&x))));
        }
    }
    for (t, o) in outs {
        ctx.eval(1);
        if o != base {
            ctx.fail("argument-type", format!("metadata({}) as {}: {} but as bytes {}", esc(p), t, o.short(), base.short()));
        }
    }
    // Error conversion.
    let e: Option<Ext4Error> = match r.below(5) {
        0 => fs.read(p).err(),
        1 => fs.read_to_string(p).err(),
        2 => fs.read_link(p).err(),
        3 => fs.read_dir(p).err(),
        _ => fs.open(p).err(),
    };
    if let Some(e) = e {
        ctx.eval(1);
        let k = errk(&e);
        let text = e.to_string();
        let io: std::io::Error = e.into();
        let want = match k {
            ErrK::IsASpecialFile | ErrK::MalformedPath | ErrK::NotASymlink | ErrK::NotAbsolute => ErrorKind::InvalidInput,
            ErrK::FileTooLarge => ErrorKind::FileTooLarge,
            ErrK::IsADirectory => ErrorKind::IsADirectory,
            ErrK::NotADirectory => ErrorKind::NotADirectory,
            ErrK::NotFound => ErrorKind::NotFound,
            ErrK::NotUtf8 => ErrorKind::InvalidData,
            ErrK::Encrypted => ErrorKind::PermissionDenied,
            _ => ErrorKind::Other,
        };
        if io.kind() != want {
            ctx.fail("io-kind", format!("{:?} ({}) converts to {:?}, expected {:?}", k, text, io.kind(), want));
        }
    }
}

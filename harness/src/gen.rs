//! Random filesystems: configurations, file layouts and trees.

use crate::disk::Disk;
use crate::eofnames;
use crate::mkfs::*;
use crate::model::*;
use crate::rng::Rng;
use crate::sums::{dirhash, Alg};
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug)]
pub struct GenOpts {
    /// Block sizes to choose from.
    pub bs: Vec<u32>,
    pub csum: Option<bool>,
    /// Minimum number of free blocks wanted.
    pub blocks: u64,
    /// Percent chance of a huge (sparse) volume.
    pub huge: u64,
    /// Base-2 logarithm of the size of the largest volume in bytes.
    pub huge_bytes: u64,
    pub encrypt: bool,
    pub nodes: (u64, u64),
    /// Percent chance that a directory uses a hash tree.
    pub htree: u64,
    /// Extra big directory: number of entries (0: none).
    pub bigdir: usize,
    /// Chance in percent that the big directory has an exactly full hash-tree
    /// node.
    pub full_node: u64,
    pub collisions: bool,
    /// Largest logical block for sparse files, and for data per file.
    pub max_lblk: u32,
    pub file_blocks: u32,
    /// Percent of nodes that are symlinks.
    pub symlinks: u64,
    pub specials: bool,
    /// Names: restricted (readable) or any bytes.
    pub plain_names: bool,
    pub extents: Option<bool>,
    /// Percent of files with extents near the longest possible.
    pub long: u64,
}

impl Default for GenOpts {
    fn default() -> Self {
        GenOpts {
            bs: vec![1024, 1024, 1024, 2048, 4096, 4096, 4096, 8192, 16384, 65536],
            csum: None,
            blocks: 3000,
            huge: 10,
            huge_bytes: 63,
            encrypt: false,
            nodes: (10, 60),
            htree: 30,
            bigdir: 0,
            full_node: 0,
            collisions: false,
            max_lblk: 3000,
            file_blocks: 24,
            symlinks: 18,
            specials: true,
            plain_names: false,
            extents: None,
            long: 0,
        }
    }
}

pub fn gen_cfg(r: &mut Rng, o: &GenOpts) -> Cfg {
    let bs = *r.pick(&o.bs);
    let is64 = r.chance(1, 2);
    let csum = o.csum.unwrap_or_else(|| r.chance(1, 2));
    let inode_size = {
        let mut v = vec![128u16, 256, 256, 256, 512];
        if bs >= 2048 {
            v.push(1024);
        }
        if bs >= 4096 {
            v.push(2048);
        }
        v.push(bs.min(4096) as u16);
        *r.pick(&v)
    };
    let huge = is64 && r.chance(o.huge, 100);
    let (nblocks, bpg);
    let mut many = false;
    if huge {
        // Block numbers up to 2^47, with few (very large) groups.
        let bits = r.range(33, 47);
        let max_bits = o.huge_bytes - bs.trailing_zeros() as u64;
        let bits = bits.min(max_bits);
        let n = (1u64 << (bits - 1)) + r.below(1 << (bits - 1));
        bpg = *r.pick(&[0x8000_0000u32, 0xffff_fff8, 0x4000_0000, 0xffff_fff8]);
        let mut n = n;
        // Keep the number of groups moderate, mostly.
        many = r.chance(1, 6);
        let maxg = if many { 1 << 16 } else { 300 };
        n = n.min(bpg as u64 * maxg);
        nblocks = n;
    } else {
        let g = r.range(1, 8);
        let per = (o.blocks.div_ceil(g) / 8 * 8 + 64).min(bs as u64 * 8);
        let g = o.blocks.div_ceil(per).max(1);
        bpg = per as u32;
        // The last group may be partial.
        nblocks = per * g - if r.bool() { r.below(per / 2) } else { 0 } + if bs == 1024 { 1 } else { 0 };
    }
    let per_block = bs / inode_size as u32;
    let bigalloc = huge || r.chance(1, 6);
    let fdb = (bs == 1024 && !bigalloc) as u64;
    let groups = (nblocks - fdb).div_ceil(bpg as u64);
    let want = (o.nodes.1 + o.bigdir as u64 / 4 + 60).div_ceil(groups.min(8)).max(16) as u32;
    let unit = per_block.max(1);
    let mut ipg = want.div_ceil(unit) * unit;
    ipg = ipg.div_ceil(8) * 8;
    let desc_size = if many {
        64
    } else if is64 { *r.pick(&[64u16, 64, 64, 64, 128, 256, 1024]) } else { *r.pick(&[0u16, 32]) };
    let extents = o.extents.unwrap_or_else(|| r.chance(3, 5));
    let mut incompat = INC_FILETYPE;
    if extents || r.bool() {
        incompat |= INC_EXTENTS;
    }
    if is64 {
        incompat |= INC_64BIT;
    }
    if r.bool() {
        incompat |= INC_FLEXBG;
    }
    if o.encrypt {
        incompat |= INC_ENCRYPT;
    }
    let csum_seed = if csum && r.chance(1, 3) {
        incompat |= INC_CSUM_SEED;
        Some(r.u32())
    } else {
        None
    };
    let mut ro = r.u32() & (0x1 | 0x2 | 0x8 | 0x20 | 0x40 | 0x100 | 0x1000 | 0x2000 | 0x8000 | 0x1_0000);
    if csum {
        ro |= RO_CSUM;
    } else if r.chance(1, 3) {
        ro |= 0x10;
    }
    if bigalloc {
        ro |= 0x200;
    }
    let mut uuid = [0; 16];
    r.fill(&mut uuid);
    let mut label = [0; 16];
    let ll = r.usize(17);
    let lb = if r.bool() { r.bytes(ll) } else { (0..ll).map(|_| b'a' + r.below(26) as u8).collect() };
    label[..ll].copy_from_slice(&lb);
    let hash_seed = if r.chance(1, 4) {
        [0; 4]
    } else if r.chance(1, 12) {
        eofnames::DEFAULT_SEED
    } else if r.chance(1, 6) {
        [0, 0, 0, r.u32()]
    } else {
        [r.u32(), r.u32(), r.u32(), r.u32()]
    };
    let room = inode_size.saturating_sub(128);
    let extra_isize = if room == 0 {
        0
    } else {
        let v: Vec<u16> = [0u16, 4, 8, 24, 28, 32, 32, 32].iter().copied().filter(|x| *x <= room).collect();
        *r.pick(&v)
    };
    Cfg {
        bs,
        nblocks,
        bpg,
        ipg,
        inode_size,
        is64,
        desc_size,
        csum,
        csum_seed,
        uuid,
        label,
        hash_seed,
        s_flags: *r.pick(&[1, 1, 1, 2, 2, 0]) | if r.chance(1, 3) { r.u32() & !3 } else { 0 },
        compat: 0x20 | (r.u32() & (0x8 | 0x10 | 0x40 | 0x80 | 0x200)),
        incompat,
        ro,
        extents,
        extra_isize,
    }
}

pub fn gen_attr(r: &mut Rng) -> Attr {
    let big = r.chance(1, 3);
    Attr {
        perm: if r.bool() { 0o644 } else { r.u16() & 0o7777 },
        uid: if big { r.u32() } else { r.below(70_000) as u32 },
        gid: if big { r.u32() } else { r.below(70_000) as u32 },
        // Flags without effect on reading: secure delete, immutable, append,
        // nodump, noatime, ...
        flags: if r.chance(1, 3) { r.u32() & (0x1 | 0x2 | 0x8 | 0x10 | 0x20 | 0x40 | 0x80 | 0x4_0000) } else { 0 },
    }
}

pub fn gen_mapping(r: &mut Rng, extents: bool) -> Mapping {
    if extents {
        Mapping::Extents {
            fanout: *r.pick(&[1usize, 2, 3, 4, 7, 30, 1000]),
            min_depth: *r.pick(&[0u16, 0, 0, 0, 1, 1, 2, 3, 5]),
            contig: r.bool(),
        }
    } else {
        Mapping::BlockMap { empties: r.chance(1, 3), contig: r.bool() }
    }
}

/// Interesting logical block numbers for a mapping.
pub fn boundaries(bs: u32, extents: bool, max: u32) -> Vec<u32> {
    let per = bs as u64 / 4;
    let mut v: Vec<u64> = vec![0, 1, 11, 12, 13];
    for k in [
        12 + per,
        12 + per + per,
        12 + per + per * per,
        12 + per + per * per + per,
        12 + per + 2 * per * per,
    ] {
        v.extend([k - 2, k - 1, k, k + 1]);
    }
    if extents {
        v.extend([32767, 32768, 32769, 65535, 65536]);
    }
    v.retain(|x| *x <= max as u64);
    v.iter().map(|x| *x as u32).collect()
}

/// Runs of data blocks, gaps being holes.
pub fn gen_runs(r: &mut Rng, bs: u32, extents: bool, max_lblk: u32, data: u32) -> Vec<Run> {
    let mut runs: Vec<Run> = Vec::new();
    if data == 0 || r.chance(1, 12) {
        return runs;
    }
    let style = r.below(4);
    let bnd = boundaries(bs, extents, max_lblk);
    let mut left = r.range(1, data as u64) as u32;
    let mut pos = match style {
        0 => 0,
        1 => r.below(4) as u32,
        _ => *r.pick(&bnd),
    };
    while left > 0 {
        let len = match style {
            0 => left,
            _ => r.range(1, left.min(8) as u64) as u32,
        };
        if pos as u64 + len as u64 > max_lblk as u64 + 1 {
            break;
        }
        let unw = extents && r.chance(1, 5);
        runs.push(Run { lblk: pos, len, unw });
        left -= len;
        let gap = match style {
            0 | 1 => r.below(3) as u32,
            2 => r.skewed(max_lblk as u64 / 4) as u32,
            _ => {
                // Jump to a later boundary.
                let v: Vec<u32> = bnd.iter().copied().filter(|b| *b >= pos + len).collect();
                if v.is_empty() {
                    break;
                }
                *r.pick(&v) - (pos + len)
            }
        };
        pos = match (pos + len).checked_add(gap) {
            Some(p) if p <= max_lblk => p,
            _ => break,
        };
    }
    runs
}

pub fn gen_size(r: &mut Rng, bs: u32, runs: &[Run], max_lblk: u32, extents: bool) -> u64 {
    let end = runs.last().map(|r| r.lblk as u64 + r.len as u64).unwrap_or(0);
    let bs64 = bs as u64;
    match r.below(8) {
        // Trailing hole.
        0 => (end + 1 + r.skewed((max_lblk as u64).saturating_sub(end).max(1))) * bs64 - r.below(bs64),
        // Preallocated (or not yet truncated) blocks beyond the end.
        1 if extents && end > 0 => r.range(0, end * bs64),
        2 => end * bs64,
        3 if end > 0 => (end - 1) * bs64 + 1,
        _ if end > 0 => end * bs64 - r.below(bs64),
        _ => r.below(3 * bs64),
    }
}

pub fn gen_name(r: &mut Rng, plain: bool) -> Vec<u8> {
    let n = match r.below(10) {
        0..=5 => r.range(1, 12),
        6..=7 => r.range(1, 60),
        8 => r.range(1, 255),
        _ => *r.pick(&[1u64, 2, 3, 4, 5, 15, 16, 17, 31, 32, 33, 59, 60, 63, 64, 128, 254, 255]),
    } as usize;
    loop {
        let v: Vec<u8> = if plain {
            (0..n.min(40)).map(|_| *r.pick(b"abcdefghijklmnopqrstuvwxyz0123456789_-")).collect()
        } else {
            match r.below(5) {
                4 => utf8_name(r, n),
                0 | 1 => (0..n).map(|_| *r.pick(b"abcdefghijABCDEF0123456789._- ~")).collect(),
                2 => (0..n)
                    .map(|_| loop {
                        let b = r.u8();
                        if b != 0 && b != b'/' {
                            break b;
                        }
                    })
                    .collect(),
                _ => (0..n).map(|_| 0x80 | r.u8()).collect(),
            }
        };
        if v != b"." && v != b".." {
            return v;
        }
    }
}

/// Valid UTF-8 of at most `n` bytes with characters of every length.
fn utf8_name(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut s = String::new();
    loop {
        let c = match r.below(8) {
            0 => 'a',
            1..=2 => *r.pick(&['\u{80}', '\u{7ff}', 'ß', 'é', '\u{301}', '\u{85}']),
            3..=5 => *r.pick(&['\u{800}', '\u{ffff}', '€', '日', '\u{feff}', '\u{2028}', '\u{fffd}']),
            _ => *r.pick(&['\u{10000}', '\u{10ffff}', '😀']),
        };
        if s.len() + c.len_utf8() > n {
            break;
        }
        s.push(c);
    }
    if s.is_empty() {
        s.push('u');
    }
    s.into_bytes()
}

/// Pairs of names with equal hash (birthday search).
pub fn collisions(r: &mut Rng, alg: Alg, unsigned: bool, seed: &[u32; 4], tries: usize) -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut seen: HashMap<u32, Vec<u8>> = HashMap::with_capacity(tries);
    let mut out = Vec::new();
    let hi = r.bool();
    for _ in 0..tries {
        let mut name: Vec<u8> = (0..7).map(|_| b'a' + r.below(26) as u8).collect();
        if hi {
            name[3] |= 0x80;
        }
        let h = dirhash(&name, alg, unsigned, seed);
        if let Some(o) = seen.get(&h) {
            if *o != name {
                out.push((o.clone(), name));
            }
        } else {
            seen.insert(h, name);
        }
    }
    out
}

#[derive(Clone)]
enum PKind {
    Dir,
    Node(u32),
}

#[derive(Clone)]
struct Plan {
    /// Directory path components are found via parent.
    parent: usize,
    name: Vec<u8>,
    ino: u32,
    kind: PKind,
}

pub fn gen_dirspec(r: &mut Rng, cfg: &Cfg, o: &GenOpts, htree: bool) -> DirSpec {
    let mut mapping = gen_mapping(r, cfg.extents);
    if let Mapping::Extents { min_depth, .. } = &mut mapping {
        *min_depth = (*min_depth).min(3);
    }
    let _ = o;
    DirSpec {
        mapping,
        htree: htree.then(|| HtreeSpec {
            alg: *r.pick(&[Alg::HalfMd4, Alg::HalfMd4, Alg::Tea]),
            depth: *r.pick(&[0u8, 0, 0, 1, 1]),
            leaf_max: *r.pick(&[1usize, 2, 4, 8, 30, 1000]),
            node_max: *r.pick(&[1usize, 2, 5, 30, 1000]),
        }),
        slack: *r.pick(&[0u64, 20, 60]),
        deleted: *r.pick(&[0u64, 0, 10, 30]),
        fill: *r.pick(&[10u64, 40, 100, 100]),
        shuffle_blocks: r.bool(),
    }
}

pub fn start(seed: &mut Rng, o: &GenOpts) -> Mk {
    let cfg = gen_cfg(seed, o);
    Mk::new(cfg, Rng::new(seed.next()))
}

/// A random tree on a random filesystem.
pub fn gen_image(r: &mut Rng, o: &GenOpts) -> Image {
    gen_tree(r, o).finish()
}

pub fn gen_tree(r: &mut Rng, o: &GenOpts) -> Mk {
    let mut o = o.clone();
    loop {
        // A tree may turn out too large for the volume: then a larger one.
        let mut a = r.clone();
        let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| gen_tree_once(&mut a, &o)));
        match x {
            Ok(mk) => {
                *r = a;
                return mk;
            }
            Err(e) => {
                let msg = e.downcast_ref::<String>().cloned().unwrap_or_default();
                if !msg.contains("out of space") || o.blocks > 100_000 {
                    std::panic::resume_unwind(e);
                }
                o.blocks *= 2;
            }
        }
    }
}

fn gen_tree_once(r: &mut Rng, o: &GenOpts) -> Mk {
    let mut mk = start(r, o);
    let extents = mk.cfg.extents;
    let mut dirs: Vec<(usize, u32)> = vec![(0, 2)]; // (plan index, ino)
    let mut plans: Vec<Plan> = vec![Plan { parent: 0, name: vec![], ino: 2, kind: PKind::Dir }];
    let mut names: Vec<HashSet<Vec<u8>>> = vec![HashSet::new()];
    let mut children: Vec<Vec<DEnt>> = vec![vec![]];
    let mut paths: Vec<Vec<u8>> = vec![b"/".to_vec()];
    let mut links: Vec<(usize, Vec<u8>)> = Vec::new(); // symlinks to create: (dir, name)
    let nodes = r.range(o.nodes.0, o.nodes.1);
    // Data budget so that the volume never fills.
    let mut budget = o.blocks / 2;
    let new_name = |r: &mut Rng, set: &mut HashSet<Vec<u8>>| loop {
        let n = gen_name(r, o.plain_names);
        if set.insert(n.clone()) {
            return n;
        }
    };
    let mut linkable: Vec<(u32, u8)> = Vec::new();
    for _ in 0..nodes {
        let d = if r.chance(1, 3) { 0 } else { r.usize(dirs.len()) };
        let (dp, _) = dirs[d];
        let name = new_name(r, &mut names[d]);
        let path = join(&paths[dp], &name);
        let x = r.below(100);
        if x < 22 {
            let ino = mk.alloc_ino();
            children[d].push(DEnt { name: name.clone(), ino, ft: 2 });
            plans.push(Plan { parent: d, name, ino, kind: PKind::Dir });
            paths.push(path);
            dirs.push((plans.len() - 1, ino));
            names.push(HashSet::new());
            children.push(vec![]);
            continue;
        }
        if x < 22 + o.symlinks {
            links.push((d, name));
            continue;
        }
        let ino = if !linkable.is_empty() && r.chance(1, 10) {
            let (ino, ft) = *r.pick(&linkable);
            children[d].push(DEnt { name, ino, ft });
            continue;
        } else if o.specials && r.chance(1, 8) {
            let f = *r.pick(&[S_IFIFO, S_IFCHR, S_IFBLK, S_IFSOCK]);
            let a = gen_attr(r);
            mk.add_special(&a, f)
        } else {
            let mut a = gen_attr(r);
            if o.encrypt && r.chance(1, 6) {
                a.flags |= FL_ENCRYPT;
            }
            gen_file(r, &mut mk, o, extents, &a, &mut budget)
        };
        let ft = mk.model.get(ino).ft();
        linkable.push((ino, ft));
        children[d].push(DEnt { name: name.clone(), ino, ft });
        plans.push(Plan { parent: d, name, ino, kind: PKind::Node(ino) });
        paths.push(path);
    }
    // Symlinks: targets among all the paths.
    let dirpaths: Vec<Vec<u8>> = dirs.iter().map(|d| paths[d.0].clone()).collect();
    let mut allpaths = paths.clone();
    for (d, name) in &links {
        allpaths.push(join(&dirpaths[*d], name));
    }
    for (d, name) in links {
        let target = gen_target(r, &allpaths, &dirpaths[d], mk.cfg.bs);
        let mut a = gen_attr(r);
        let enc = o.encrypt && r.chance(1, 6);
        if enc {
            a.flags |= FL_ENCRYPT;
        }
        let m = gen_mapping(r, extents);
        let ino = mk.add_symlink(&a, &target, m);
        children[d].push(DEnt { name, ino, ft: 7 });
    }
    // A big directory.
    if o.bigdir > 0 {
        let ino = mk.alloc_ino();
        let name = new_name(r, &mut names[0]);
        children[0].push(DEnt { name: name.clone(), ino, ft: 2 });
        let mut set = HashSet::new();
        let mut ents = Vec::new();
        let spec_ht = r.chance(9, 10);
        let mut spec = gen_dirspec(r, &mk.cfg, o, spec_ht);
        if let Some(h) = &mut spec.htree {
            h.leaf_max = *r.pick(&[2usize, 4, 8, 30, 1000]);
            if o.collisions {
                h.leaf_max = *r.pick(&[1usize, 2, 3, 5]);
            }
        }
        let targets: Vec<(u32, u8)> = if linkable.is_empty() {
            let a = gen_attr(r);
            let i = gen_file(r, &mut mk, o, extents, &a, &mut budget);
            vec![(i, 1)]
        } else {
            linkable.clone()
        };
        let mut n = r.range(o.bigdir as u64 / 4 + 1, o.bigdir as u64) as usize;
        if let Some(h) = &mut spec.htree {
            if o.full_node > 0 && mk.cfg.bs <= 8192 && r.chance(o.full_node, 100) {
                h.leaf_max = 1;
                h.node_max = usize::MAX;
                h.depth = r.below(2) as u8;
                spec.deleted = 0;
                let csz = if mk.cfg.csum { 8 } else { 0 };
                n = (mk.cfg.bs as usize - if h.depth == 0 { 0x20 } else { 8 } - csz) / 8;
                n = match r.below(4) {
                    0 => n - 1,
                    1 => n + 1,
                    _ => n,
                };
            }
        }
        if o.collisions {
            if let Some(h) = &spec.htree {
                let uns = mk.cfg.unsigned_hash();
                let seed = mk.cfg.hash_seed;
                // Names of the largest hash (and the one next to it).
                if eofnames::is_default(&seed) && r.chance(3, 4) {
                    let pool: Vec<Vec<u8>> = eofnames::names(h.alg, *r.pick(&[40usize, 140, 255]));
                    for x in pool {
                        if r.chance(3, 4) && set.insert(x.clone()) {
                            let (ino, ft) = *r.pick(&targets);
                            ents.push(DEnt { name: x, ino, ft });
                        }
                    }
                }
                for (a, b) in collisions(r, h.alg, uns, &seed, 100_000) {
                    for x in [a, b] {
                        if set.insert(x.clone()) {
                            let (ino, ft) = *r.pick(&targets);
                            ents.push(DEnt { name: x, ino, ft });
                        }
                    }
                }
            }
        }
        while ents.len() < n {
            let x = if r.chance(2, 3) {
                let mut v = format!("f{}", r.below(1_000_000)).into_bytes();
                if r.bool() {
                    v.push(0x80 | r.u8());
                }
                v
            } else {
                gen_name(r, o.plain_names)
            };
            if set.insert(x.clone()) {
                let (ino, ft) = *r.pick(&targets);
                ents.push(DEnt { name: x, ino, ft });
            }
        }
        let a = gen_attr(r);
        mk.put_dir(ino, 2, &a, &ents, &spec);
    }
    // Write directories.
    for d in 0..dirs.len() {
        let (pi, ino) = dirs[d];
        let parent = dirs[plans[pi].parent].1;
        let mut a = gen_attr(r);
        // (A sub-tree of an encrypted directory is encrypted too, but the
        // library must refuse it in any case.)
        if o.encrypt && d > 0 && r.chance(1, 8) {
            a.flags |= FL_ENCRYPT;
        }
        let n = children[d].len();
        let htree = r.chance(o.htree, 100) && n > 0;
        let spec = gen_dirspec(r, &mk.cfg, o, htree);
        if r.bool() {
            r.shuffle(&mut children[d]);
        }
        mk.put_dir(ino, parent, &a, &children[d], &spec);
    }
    let _ = plans.iter().map(|p| (&p.name, p.ino, &p.kind)).count();
    mk
}

pub fn gen_file(r: &mut Rng, mk: &mut Mk, o: &GenOpts, extents: bool, a: &Attr, budget: &mut u64) -> u32 {
    let bs = mk.cfg.bs;
    let m = {
        // Extent filesystems can also hold block-mapped files.
        let e = if mk.cfg.incompat & INC_EXTENTS == 0 { false } else { extents ^ r.chance(1, 6) };
        gen_mapping(r, e)
    };
    let e = matches!(m, Mapping::Extents { .. });
    if r.chance(1, 6) {
        // Text or binary contents, for UTF-8 decisions.
        let n = r.skewed((3 * bs as u64).min(9000)) as usize;
        let mut v: Vec<u8> = (0..n).map(|_| *r.pick(b"hello world\n\xc3\xa9")).collect();
        if r.bool() {
            v = String::from_utf8_lossy(&v).into_owned().into_bytes();
            v.truncate(n);
            while std::str::from_utf8(&v).is_err() {
                v.pop();
            }
        }
        *budget = budget.saturating_sub(4);
        return mk.add_bytes_file(a, v, m);
    }
    if e && o.long > 0 && mk.cfg.nblocks > 1 << 20 && r.chance(o.long, 100) {
        let lens = [32766u32, 32767, 32768, 32768, 32768, 32769, 40_000, 65535, 65536];
        let m = match m {
            Mapping::Extents { fanout, min_depth, .. } => Mapping::Extents { fanout, min_depth, contig: true },
            m => m,
        };
        let mut runs = Vec::new();
        let mut pos = *r.pick(&[0u32, 0, 0, 1, 2, 32767]);
        for _ in 0..r.range(1, 2) {
            let len = *r.pick(&lens);
            runs.push(Run { lblk: pos, len, unw: r.chance(1, 5) });
            pos += len + r.below(3) as u32;
        }
        let size = gen_size(r, bs, &runs, pos + 100, e);
        return mk.add_file(a, size, &runs, m);
    }
    let data = if *budget > o.file_blocks as u64 * 2 { o.file_blocks } else { 0 };
    let runs = gen_runs(r, bs, e, o.max_lblk, data);
    let used: u64 = runs.iter().map(|x| x.len as u64).sum();
    *budget = budget.saturating_sub(used * 2 + 4);
    let size = gen_size(r, bs, &runs, o.max_lblk, e);
    mk.add_file(a, size, &runs, m)
}

/// A symlink target.
pub fn gen_target(r: &mut Rng, all: &[Vec<u8>], dir: &[u8], bs: u32) -> Vec<u8> {
    let mut t: Vec<u8> = match r.below(10) {
        0..=2 => r.pick(all).clone(),
        3..=6 => relative(r, dir, r_pick(all, r.clone()).as_slice()),
        7 => gen_name(r, true),
        8 => b".".to_vec(),
        _ => {
            let mut v = r.pick(all).clone();
            v.extend_from_slice(b"/..");
            v
        }
    };
    // Decorate.
    if r.chance(1, 4) {
        t = decorate(r, &t);
    }
    if r.chance(1, 5) {
        // A long target.
        let max = (bs as usize - 1).min(4095);
        let want = match r.below(5) {
            0 => r.range(58, 62) as usize,
            1 => max,
            2 => max - r.below(3) as usize,
            _ => r.range(60, max as u64) as usize,
        };
        let abs = t.first() == Some(&b'/');
        let mut pre: Vec<u8> = if abs { b"/".to_vec() } else { vec![] };
        // (Each component costs a search of a directory, for each symlink
        // restarted from the root: only some targets have very many.)
        let mut dots = if bs <= 2048 && r.chance(1, 12) { 2000 } else { r.range(1, 12) };
        while pre.len() + t.len() + 2 <= want {
            if dots > 0 && (pre.is_empty() || r.chance(1, 8) || dots > 100) {
                dots -= 1;
                pre.extend_from_slice(b"./");
            } else if dots > 0 || !pre.is_empty() {
                pre.push(b'/');
            }
        }
        // The exact length, where separators may be repeated.
        while !pre.is_empty() && pre.len() + t.len() < want + abs as usize {
            pre.push(b'/');
        }
        pre.extend_from_slice(if abs { &t[1..] } else { &t });
        t = pre;
        while t.len() < want && r.chance(1, 2) {
            t.push(b'/');
        }
    }
    t.truncate((bs as usize - 1).min(4095));
    // Truncation may not leave an overlong component.
    if t.is_empty() || t.split(|b| *b == b'/').any(|c| c.len() > 255) {
        return b"..".to_vec();
    }
    t
}

fn r_pick(all: &[Vec<u8>], mut r: Rng) -> Vec<u8> {
    all[r.usize(all.len())].clone()
}

/// `to`, relative to directory `from`.
pub fn relative(r: &mut Rng, from: &[u8], to: &[u8]) -> Vec<u8> {
    let f: Vec<&[u8]> = from.split(|b| *b == b'/').filter(|c| !c.is_empty()).collect();
    let t: Vec<&[u8]> = to.split(|b| *b == b'/').filter(|c| !c.is_empty()).collect();
    let mut common = 0;
    if !r.chance(1, 4) {
        while common < f.len() && common < t.len() && f[common] == t[common] {
            common += 1;
        }
    }
    let mut out: Vec<u8> = Vec::new();
    for _ in common..f.len() {
        out.extend_from_slice(b"../");
    }
    for c in &t[common..] {
        out.extend_from_slice(c);
        out.push(b'/');
    }
    out.pop();
    if out.is_empty() {
        out = b".".to_vec();
    }
    out
}

/// Insert redundant separators, `.` and `name/..` into a path.
pub fn decorate(r: &mut Rng, p: &[u8]) -> Vec<u8> {
    let abs = p.first() == Some(&b'/');
    let comps: Vec<&[u8]> = p.split(|b| *b == b'/').filter(|c| !c.is_empty()).collect();
    let mut out: Vec<u8> = if abs { b"/".to_vec() } else { vec![] };
    for (i, c) in comps.iter().enumerate() {
        if i > 0 {
            out.push(b'/');
            if r.chance(1, 5) {
                out.push(b'/');
            }
        }
        while r.chance(1, 5) {
            out.extend_from_slice(b"./");
        }
        if i > 0 && r.chance(1, 6) {
            // up and down again
            out.extend_from_slice(b"../");
            out.extend_from_slice(comps[i - 1]);
            out.push(b'/');
        }
        out.extend_from_slice(c);
    }
    match r.below(8) {
        0 => out.push(b'/'),
        1 => out.extend_from_slice(b"/."),
        2 => out.extend_from_slice(b"//"),
        _ => {}
    }
    if out.is_empty() {
        out = b".".to_vec();
    }
    out
}

/// Random absolute paths, many of which exist.
pub fn gen_path(r: &mut Rng, all: &[Vec<u8>]) -> Vec<u8> {
    let mut p = match r.below(12) {
        0..=5 => r.pick(all).clone(),
        6 => join(r.pick(all), &gen_name(r, true)),
        7 => join(r.pick(all), b".."),
        8 => {
            let a = r.pick(all).clone();
            let b = r.pick(all).clone();
            [a, b"/../".to_vec(), b[1..].to_vec()].concat()
        }
        9 => {
            // A prefix of a name, or an extended name.
            let mut a = r.pick(all).clone();
            if r.bool() && a.len() > 2 && a[a.len() - 2] != b'/' {
                a.pop();
            } else {
                a.push(b'x');
            }
            a
        }
        10 => {
            // Through entries of a symlinked directory.
            let a = r.pick(all).clone();
            let b = r.pick(all).clone();
            let last: Vec<u8> = b.rsplit(|c| *c == b'/').next().unwrap_or(b"").to_vec();
            join(&a, &last)
        }
        _ => join(r.pick(all), b"."),
    };
    if r.chance(1, 3) {
        p = decorate(r, &p);
    }
    p
}

#[allow(dead_code)]
pub fn blank(bs: usize, n: u64) -> Disk {
    Disk::new(bs, n)
}

//! Writes ext2/3/4 filesystems from a model, in many layouts.

use crate::disk::Disk;
use crate::model::*;
use crate::rng::Rng;
use crate::sums::{crc32c, dirhash, Alg};
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Debug)]
pub struct Cfg {
    pub bs: u32,
    pub nblocks: u64,
    pub bpg: u32,
    pub ipg: u32,
    pub inode_size: u16,
    pub is64: bool,
    pub desc_size: u16,
    pub csum: bool,
    pub csum_seed: Option<u32>,
    pub uuid: [u8; 16],
    pub label: [u8; 16],
    pub hash_seed: [u32; 4],
    /// s_flags: 1 = signed hash, 2 = unsigned hash.
    pub s_flags: u32,
    pub compat: u32,
    pub incompat: u32,
    pub ro: u32,
    /// Default mapping of files (extents or block maps).
    pub extents: bool,
    pub extra_isize: u16,
}

pub const INC_FILETYPE: u32 = 0x2;
pub const INC_RECOVER: u32 = 0x4;
pub const INC_EXTENTS: u32 = 0x40;
pub const INC_64BIT: u32 = 0x80;
pub const INC_FLEXBG: u32 = 0x200;
pub const INC_CSUM_SEED: u32 = 0x2000;
pub const INC_ENCRYPT: u32 = 0x1_0000;
pub const RO_CSUM: u32 = 0x400;

impl Cfg {
    pub fn fdb(&self) -> u32 {
        // With clusters, group 0 starts at block 0 whatever the block size.
        if self.bs == 1024 && !self.bigalloc() { 1 } else { 0 }
    }
    pub fn bigalloc(&self) -> bool {
        self.ro & 0x200 != 0
    }
    pub fn groups(&self) -> u32 {
        ((self.nblocks - self.fdb() as u64).div_ceil(self.bpg as u64)) as u32
    }
    pub fn dsize(&self) -> u16 {
        if self.is64 { self.desc_size } else { 32 }
    }
    pub fn gdt_start(&self) -> u64 {
        // The block after the one that holds the superblock.
        if self.bs == 1024 { 2 } else { 1 }
    }
    /// Byte offset of descriptor `g` (descriptors do not straddle blocks).
    pub fn bgd_off(&self, g: u32) -> u64 {
        let per = self.bs / self.dsize() as u32;
        (self.gdt_start() + (g / per) as u64) * self.bs as u64
            + (g % per) as u64 * self.dsize() as u64
    }
    pub fn gdt_blocks(&self) -> u64 {
        let per = self.bs / self.dsize() as u32;
        self.groups().div_ceil(per) as u64
    }
    pub fn fs_seed(&self) -> u32 {
        match self.csum_seed {
            Some(s) => s,
            None => crc32c(!0, &self.uuid),
        }
    }
    pub fn unsigned_hash(&self) -> bool {
        self.s_flags & 2 != 0
    }
    pub fn dir_usable(&self) -> usize {
        self.bs as usize - if self.csum { 12 } else { 0 }
    }
    pub fn describe(&self) -> String {
        format!(
            "bs={} blocks={} bpg={} ipg={} isize={} 64bit={} dsize={} csum={} extents={} uhash={} incompat={:#x} ro={:#x}",
            self.bs, self.nblocks, self.bpg, self.ipg, self.inode_size, self.is64,
            self.dsize(), self.csum, self.extents, self.unsigned_hash(), self.incompat, self.ro
        )
    }
}

/// A checksummed (or otherwise interesting) structure on disk.
#[derive(Clone, Debug)]
pub enum StructKind {
    Sb,
    Bgd(u32),
    Inode(u32),
    /// Extent node block of an inode.
    Extent(u32),
    /// Indirect block of an inode.
    Indirect(u32),
    DirLeaf(u32),
    DxRoot(u32),
    DxNode(u32),
    Journal(&'static str),
    /// Symlink target block.
    Target(u32),
}

#[derive(Clone, Debug)]
pub struct Struct {
    pub kind: StructKind,
    pub off: u64,
    pub len: u32,
}

#[derive(Clone)]
pub struct Image {
    pub disk: Disk,
    pub model: Model,
    pub cfg: Cfg,
    pub structs: Vec<Struct>,
    pub itables: BTreeMap<u32, u64>,
    /// Generation number of each inode (part of checksum seeds).
    pub gens: BTreeMap<u32, u32>,
    /// Blocks in use.
    pub used: HashSet<u64>,
    /// Journal inode's blocks, in order (if there is a journal).
    pub jblocks: Vec<u64>,
    /// Number of the journal inode.
    pub jino: u32,
}

pub fn w16(b: &mut [u8], o: usize, v: u16) {
    b[o..o + 2].copy_from_slice(&v.to_le_bytes());
}
pub fn w32(b: &mut [u8], o: usize, v: u32) {
    b[o..o + 4].copy_from_slice(&v.to_le_bytes());
}
pub fn r16(b: &[u8], o: usize) -> u16 {
    u16::from_le_bytes([b[o], b[o + 1]])
}
pub fn r32(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]])
}

#[derive(Clone, Debug)]
pub struct Ext {
    pub lblk: u32,
    pub len: u32,
    pub phys: u64,
    pub unw: bool,
}

#[derive(Clone, Copy, Debug)]
pub enum Mapping {
    /// `fanout`: entries per non-root node; `min_depth`: minimum tree depth.
    Extents { fanout: usize, min_depth: u16, contig: bool },
    /// `empties`: allocate indirect blocks even where there is no data.
    BlockMap { empties: bool, contig: bool },
}

#[derive(Clone, Debug)]
pub struct HtreeSpec {
    pub alg: Alg,
    pub depth: u8,
    /// Entries per leaf (maximum), and children per internal node.
    pub leaf_max: usize,
    pub node_max: usize,
}

#[derive(Clone, Debug)]
pub struct DirSpec {
    pub mapping: Mapping,
    pub htree: Option<HtreeSpec>,
    /// Percent chance of slack / deleted entries.
    pub slack: u64,
    pub deleted: u64,
    /// Percent of a linear block to fill.
    pub fill: u64,
    pub shuffle_blocks: bool,
}

#[derive(Clone, Debug)]
pub struct Attr {
    pub perm: u16,
    pub uid: u32,
    pub gid: u32,
    pub flags: u32,
}

/// A run of file blocks; gaps between runs are holes.
#[derive(Clone, Debug)]
pub struct Run {
    pub lblk: u32,
    pub len: u32,
    pub unw: bool,
}

#[derive(Clone)]
pub struct Mk {
    pub cfg: Cfg,
    pub disk: Disk,
    pub rng: Rng,
    pub model: Model,
    pub used: HashSet<u64>,
    /// The start of the latest run.
    last: u64,
    pub itables: BTreeMap<u32, u64>,
    pub gens: BTreeMap<u32, u32>,
    used_ino: HashSet<u32>,
    pub structs: Vec<Struct>,
    pub jblocks: Vec<u64>,
    pub jino: u32,
    /// No more inode tables.
    pub frozen: bool,
    /// Largest block number that allocation may use (exclusive).
    pub alloc_hi: u64,
    /// Extents of pattern files.
    pub exts: BTreeMap<u32, Vec<Ext>>,
    /// Freed blocks to hand out first, now and then.
    pub prefer: Vec<u64>,
}

impl Mk {
    pub fn new(cfg: Cfg, mut rng: Rng) -> Self {
        let disk = Disk::new(cfg.bs as usize, cfg.nblocks);
        let mut used = HashSet::new();
        for b in 0..cfg.gdt_start() + cfg.gdt_blocks() {
            used.insert(b);
        }
        let mut mk = Mk {
            alloc_hi: cfg.nblocks,
            last: 0,
            exts: BTreeMap::new(),
            prefer: vec![],
            disk,
            rng: Rng::new(rng.next()),
            model: Model {
                inodes: BTreeMap::new(),
                label: cfg.label,
                uuid: cfg.uuid,
            },
            used,
            itables: BTreeMap::new(),
            gens: BTreeMap::new(),
            used_ino: (1..=10).collect(),
            structs: Vec::new(),
            jblocks: Vec::new(),
            jino: 8,
            frozen: false,
            cfg,
        };
        if mk.cfg.groups() <= 256 {
            for g in 0..mk.cfg.groups() {
                mk.itable(g);
            }
        }
        mk
    }

    /// The inode table of a group, allocated on first use.
    pub fn itable(&mut self, g: u32) -> u64 {
        if let Some(b) = self.itables.get(&g) {
            return *b;
        }
        let n = (self.cfg.ipg as u64 * self.cfg.inode_size as u64)
            .div_ceil(self.cfg.bs as u64);
        let hi = if self.cfg.is64 { self.cfg.nblocks } else { self.cfg.nblocks.min(1 << 32) };
        let b = self.alloc_run_below(n, hi);
        self.itables.insert(g, b);
        // Stale bytes in unused inodes.
        if self.rng.chance(1, 2) {
            for i in 0..n {
                let d = self.rng.bytes(self.cfg.bs as usize);
                self.disk.put(b + i, d);
            }
        }
        b
    }

    /// Where to try next in a huge volume: spread over all bit widths, or
    /// at a block whose number agrees with an earlier one in its low bits.
    fn far(&mut self, hi: u64, n: u64) -> u64 {
        if self.last > 0 && self.rng.chance(1, 3) {
            let bits = *self.rng.pick(&[32u64, 32, 32, 31, 24, 40, 16]);
            let b = (self.last & ((1 << bits) - 1)) + (self.rng.below(1 + (hi >> bits)) << bits);
            if b + n <= hi {
                return b;
            }
        }
        self.rng.skewed(hi - n)
    }

    pub fn alloc_run_below(&mut self, n: u64, hi: u64) -> u64 {
        let b = self.find_run_below(n, hi);
        self.last = b;
        b
    }
    fn find_run_below(&mut self, n: u64, hi: u64) -> u64 {
        let hi = hi.min(self.cfg.nblocks);
        if n == 1 && !self.prefer.is_empty() && self.rng.chance(2, 3) {
            let i = self.rng.usize(self.prefer.len());
            let b = self.prefer.swap_remove(i);
            if b < hi && self.used.insert(b) {
                return b;
            }
        }
        assert!(hi >= n, "mkfs: out of space ({} of {})", n, hi);
        for t in 0..2000u64 {
            // Mostly random, sometimes touching the end of the volume.
            let b = if t == 0 && self.rng.chance(1, 16) && hi >= n {
                hi - n
            } else if self.cfg.nblocks > 1 << 20 && self.rng.chance(1, 2) {
                self.far(hi, n)
            } else {
                self.rng.below(hi - n + 1)
            };
            if (b..b + n).all(|x| !self.used.contains(&x)) {
                for x in b..b + n {
                    self.used.insert(x);
                }
                return b;
            }
        }
        // Volume nearly full: linear search.
        let mut b = 0;
        while b + n <= hi {
            if let Some(bad) = (b..b + n).rev().find(|x| self.used.contains(x)) {
                b = bad + 1;
                continue;
            }
            for x in b..b + n {
                self.used.insert(x);
            }
            return b;
        }
        panic!("mkfs: out of space ({} blocks wanted of {})", n, self.cfg.nblocks);
    }
    pub fn alloc_run(&mut self, n: u64) -> u64 {
        self.alloc_run_below(n, self.alloc_hi)
    }
    pub fn alloc32(&mut self) -> u64 {
        let hi = self.alloc_hi.min(1 << 32);
        self.alloc_run_below(1, hi)
    }
    /// Longest free run starting near a random place, at most `n`.
    fn alloc_upto(&mut self, n: u64, hi: u64) -> (u64, u64) {
        let mut m = n;
        if !self.prefer.is_empty() && self.rng.chance(2, 3) {
            return (self.alloc_run_below(1, hi), 1);
        }
        m = m.min(hi.min(self.cfg.nblocks) / 2).max(1);
        loop {
            let hi = hi.min(self.cfg.nblocks);
            for _ in 0..8 {
                let b = if self.cfg.nblocks > 1 << 20 && self.rng.chance(1, 2) {
                    self.far(hi, m)
                } else {
                    self.rng.below(hi - m + 1)
                };
                if (b..b + m).all(|x| !self.used.contains(&x)) {
                    self.last = b;
                    for x in b..b + m {
                        self.used.insert(x);
                    }
                    return (b, m);
                }
            }
            if m == 1 {
                return (self.alloc_run_below(1, hi), 1);
            }
            m = (m / 2).max(1);
        }
    }

    fn table_for(&self, ino: u32) -> bool {
        !self.frozen || self.itables.contains_key(&((ino - 1) / self.cfg.ipg))
    }

    pub fn alloc_ino(&mut self) -> u32 {
        let total = (self.cfg.groups() as u64 * self.cfg.ipg as u64).min(u32::MAX as u64);
        for t in 0..5000u64 {
            let i = if t == 0 && self.rng.chance(1, 12) {
                total as u32 // the very last inode
            } else if t == 0 && self.rng.chance(1, 8) {
                // first or last of a group
                let g = self.rng.below(self.cfg.groups() as u64);
                let base = g * self.cfg.ipg as u64;
                (if self.rng.bool() { base + 1 } else { base + self.cfg.ipg as u64 }) as u32
            } else if self.cfg.groups() > 256 {
                // few groups only, so that few tables are allocated
                let g = if t % 4 == 0 { self.rng.skewed(self.cfg.groups() as u64 - 1) } else { 0 };
                (g * self.cfg.ipg as u64 + self.rng.below(self.cfg.ipg as u64) + 1) as u32
            } else {
                self.rng.range(1, total) as u32
            };
            if i >= 11 && self.table_for(i) && self.used_ino.insert(i) {
                return i;
            }
        }
        for i in 11..=total as u32 {
            if self.table_for(i) && self.used_ino.insert(i) {
                return i;
            }
        }
        panic!("mkfs: out of inodes");
    }

    pub fn gen_of(&mut self, ino: u32) -> u32 {
        if let Some(g) = self.gens.get(&ino) {
            return *g;
        }
        let g = self.rng.u32();
        self.gens.insert(ino, g);
        g
    }

    pub fn iseed(&mut self, ino: u32) -> u32 {
        let g = self.gen_of(ino);
        iseed(&self.cfg, ino, g)
    }

    pub fn ino_off(&mut self, ino: u32) -> u64 {
        let g = (ino - 1) / self.cfg.ipg;
        let i = (ino - 1) % self.cfg.ipg;
        self.itable(g) * self.cfg.bs as u64 + i as u64 * self.cfg.inode_size as u64
    }

    #[allow(clippy::too_many_arguments)]
    pub fn put_inode(
        &mut self,
        ino: u32,
        mode: u16,
        attr: &Attr,
        size: u64,
        flags: u32,
        iblock: &[u8; 60],
        links: u16,
    ) {
        let n = self.cfg.inode_size as usize;
        let gen = self.gen_of(ino);
        let mut b = self.rng.bytes(n);
        w16(&mut b, 0, mode);
        w16(&mut b, 2, attr.uid as u16);
        w32(&mut b, 4, size as u32);
        w32(&mut b, 0x14, 0); // dtime
        w16(&mut b, 0x18, attr.gid as u16);
        w16(&mut b, 0x1a, links);
        w32(&mut b, 0x20, flags);
        b[0x28..0x28 + 60].copy_from_slice(iblock);
        w32(&mut b, 0x64, gen);
        w32(&mut b, 0x68, 0); // no external xattr block
        w32(&mut b, 0x6c, (size >> 32) as u32);
        w16(&mut b, 0x76, 0);
        w16(&mut b, 0x78, (attr.uid >> 16) as u16);
        w16(&mut b, 0x7a, (attr.gid >> 16) as u16);
        if n > 128 {
            w16(&mut b, 0x80, self.cfg.extra_isize);
            // No in-inode xattr magic.
            let x = 128 + self.cfg.extra_isize as usize;
            if x + 4 <= n {
                w32(&mut b, x, 0);
            }
        }
        if self.cfg.csum {
            inode_csum(&self.cfg, ino, &mut b);
        }
        let off = self.ino_off(ino);
        self.disk.write(off, &b);
        self.structs.push(Struct { kind: StructKind::Inode(ino), off, len: n as u32 });
    }

    /// Allocate blocks for the runs and return extents (lblk order).
    pub fn alloc_runs(&mut self, runs: &[Run], contig: bool, hi: u64, key: u64) -> Vec<Ext> {
        let mut out = Vec::new();
        for r in runs {
            let mut l = r.lblk;
            let mut left = r.len;
            while left > 0 {
                let maxlen = if r.unw { 32767 } else { 32768 };
                let want = if contig { left.min(maxlen) } else { self.rng.range(1, left.min(7) as u64) as u32 };
                let (b, got) = self.alloc_upto(want as u64, hi);
                // Data (or, for unwritten extents, stale garbage).
                let k = if r.unw { key ^ 0xdead_beef_0000_0001 } else { key };
                let shown = if r.unw { got.min(64) } else { got };
                for i in 0..shown {
                    self.disk.put_pat(b + i, k, l + i as u32);
                }
                out.push(Ext { lblk: l, len: got as u32, phys: b, unw: r.unw });
                l = l.wrapping_add(got as u32);
                left -= got as u32;
            }
        }
        out
    }

    /// Write an extent tree; returns the inode's i_block.
    pub fn write_extents(&mut self, ino: u32, exts: &[Ext], fanout: usize, min_depth: u16) -> [u8; 60] {
        let bs = self.cfg.bs as usize;
        let cap = (bs - 12) / 12;
        let fanout = fanout.clamp(1, cap);
        let seed = self.iseed(ino);
        // Leaf level entries.
        let mut level: Vec<(u32, [u8; 12])> = exts
            .iter()
            .map(|e| {
                let mut x = [0u8; 12];
                w32(&mut x, 0, e.lblk);
                w16(&mut x, 4, if e.unw { e.len + 32768 } else { e.len } as u16);
                w16(&mut x, 6, (e.phys >> 32) as u16);
                w32(&mut x, 8, e.phys as u32);
                (e.lblk, x)
            })
            .collect();
        let mut depth = 0u16;
        let hi = if self.cfg.is64 { self.alloc_hi.min(1 << 48) } else { self.alloc_hi.min(1 << 32) };
        while level.len() > 4 || (depth < min_depth && !level.is_empty()) {
            let mut next = Vec::new();
            let mut i = 0;
            while i < level.len() {
                // Depth is limited to 5: widen if needed.
                let f = if depth >= 3 { cap } else { fanout };
                let n = if f > 1 && self.rng.chance(1, 3) {
                    self.rng.range(1, f as u64) as usize
                } else {
                    f
                }
                .min(level.len() - i);
                let b = self.alloc_run_below(1, hi);
                let mut node = self.rng.bytes(bs);
                w16(&mut node, 0, 0xf30a);
                w16(&mut node, 2, n as u16);
                w16(&mut node, 4, cap as u16);
                w16(&mut node, 6, depth);
                for k in 0..n {
                    node[12 + 12 * k..24 + 12 * k].copy_from_slice(&level[i + k].1);
                }
                if self.cfg.csum {
                    extent_csum(seed, &mut node);
                }
                self.disk.put(b, node);
                self.structs.push(Struct {
                    kind: StructKind::Extent(ino),
                    off: b * bs as u64,
                    len: bs as u32,
                });
                let mut x = [0u8; 12];
                w32(&mut x, 0, level[i].0);
                w32(&mut x, 4, b as u32);
                w16(&mut x, 8, (b >> 32) as u16);
                w16(&mut x, 10, self.rng.u16());
                next.push((level[i].0, x));
                i += n;
            }
            level = next;
            depth += 1;
            assert!(depth <= 5, "mkfs: extent tree too deep");
        }
        let mut ib = [0u8; 60];
        self.rng.fill(&mut ib);
        w16(&mut ib, 0, 0xf30a);
        w16(&mut ib, 2, level.len() as u16);
        w16(&mut ib, 4, 4);
        w16(&mut ib, 6, depth);
        for (k, e) in level.iter().enumerate() {
            ib[12 + 12 * k..24 + 12 * k].copy_from_slice(&e.1);
        }
        ib
    }

    fn write_ind(&mut self, ino: u32, entries: &[u32]) -> u32 {
        let b = self.alloc32();
        let mut v = vec![0u8; self.cfg.bs as usize];
        for (i, e) in entries.iter().enumerate() {
            w32(&mut v, i * 4, *e);
        }
        self.disk.put(b, v);
        self.structs.push(Struct {
            kind: StructKind::Indirect(ino),
            off: b * self.cfg.bs as u64,
            len: self.cfg.bs,
        });
        b as u32
    }

    /// An indirect (sub)tree covering [base, base + per^level); 0 if empty.
    fn ind_tree(&mut self, ino: u32, map: &BTreeMap<u32, u32>, base: u64, level: u32, empties: bool) -> u32 {
        let per = self.cfg.bs as u64 / 4;
        let span = per.pow(level);
        let has = base <= u32::MAX as u64
            && map
                .range(base as u32..=((base + span - 1).min(u32::MAX as u64)) as u32)
                .next()
                .is_some();
        if !has && !(empties && self.rng.chance(1, 8)) {
            return 0;
        }
        let sub = span / per;
        let mut e = vec![0u32; per as usize];
        for i in 0..per {
            let b = base + i * sub;
            e[i as usize] = if level == 1 {
                if b <= u32::MAX as u64 { map.get(&(b as u32)).copied().unwrap_or(0) } else { 0 }
            } else {
                let any = b <= u32::MAX as u64
                    && map.range(b as u32..=((b + sub - 1).min(u32::MAX as u64)) as u32).next().is_some();
                if any || (empties && i < 4) {
                    self.ind_tree(ino, map, b, level - 1, empties)
                } else {
                    0
                }
            };
        }
        self.write_ind(ino, &e)
    }

    pub fn write_blockmap(&mut self, ino: u32, exts: &[Ext], empties: bool, size: u64) -> [u8; 60] {
        let mut map = BTreeMap::new();
        for e in exts {
            for i in 0..e.len {
                map.insert(e.lblk + i, (e.phys + i as u64) as u32);
            }
        }
        let per = self.cfg.bs as u64 / 4;
        let mut ib = [0u8; 60];
        for i in 0..12u32 {
            w32(&mut ib, i as usize * 4, map.get(&i).copied().unwrap_or(0));
        }
        let _ = size;
        let t = self.ind_tree(ino, &map, 12, 1, empties);
        w32(&mut ib, 48, t);
        let t = self.ind_tree(ino, &map, 12 + per, 2, empties);
        w32(&mut ib, 52, t);
        let t = self.ind_tree(ino, &map, 12 + per + per * per, 3, empties);
        w32(&mut ib, 56, t);
        ib
    }

    pub fn hi_for(&self, m: Mapping) -> u64 {
        match m {
            Mapping::Extents { .. } if self.cfg.is64 => self.alloc_hi.min(1 << 48),
            _ => self.alloc_hi.min(1 << 32),
        }
    }

    /// Map the given extents; returns (i_block, flags).
    pub fn map(&mut self, ino: u32, exts: &[Ext], m: Mapping, size: u64) -> ([u8; 60], u32) {
        match m {
            Mapping::Extents { fanout, min_depth, .. } => {
                (self.write_extents(ino, exts, fanout, min_depth), FL_EXTENTS)
            }
            Mapping::BlockMap { empties, .. } => (self.write_blockmap(ino, exts, empties, size), 0),
        }
    }

    /// A regular file of pattern data.
    pub fn add_file(&mut self, attr: &Attr, size: u64, runs: &[Run], m: Mapping) -> u32 {
        let ino = self.alloc_ino();
        let key = crate::rng::mix(self.rng.next() ^ ino as u64);
        let contig = match m {
            Mapping::Extents { contig, .. } | Mapping::BlockMap { contig, .. } => contig,
        };
        let hi = self.hi_for(m);
        let exts = self.alloc_runs(runs, contig, hi, key);
        let (ib, fl) = self.map(ino, &exts, m, size);
        self.exts.insert(ino, exts.clone());
        self.put_inode(ino, S_IFREG | attr.perm, attr, size, attr.flags | fl, &ib, 1);
        let runs = runs.iter().filter(|r| !r.unw).map(|r| (r.lblk, r.len)).collect();
        self.model.inodes.insert(
            ino,
            MInode {
                ino,
                mode: S_IFREG | attr.perm,
                uid: attr.uid,
                gid: attr.gid,
                size,
                flags: attr.flags | fl,
                kind: Kind::Reg(Content::Pat { key, bs: self.cfg.bs, runs }),
                note: format!("file size={} extents={} {:?}", size, exts.len(), m),
            },
        );
        ino
    }

    /// Write bytes into consecutive logical blocks.
    pub fn put_bytes(&mut self, data: &[u8], m: Mapping) -> Vec<Ext> {
        let bs = self.cfg.bs as usize;
        let n = data.len().div_ceil(bs) as u32;
        let hi = self.hi_for(m);
        let contig = match m {
            Mapping::Extents { contig, .. } | Mapping::BlockMap { contig, .. } => contig,
        };
        let runs = if n == 0 { vec![] } else { vec![Run { lblk: 0, len: n, unw: false }] };
        let exts = self.alloc_runs(&runs, contig, hi, 1);
        for e in &exts {
            for i in 0..e.len {
                let s = (e.lblk + i) as usize * bs;
                let mut b = data[s..(s + bs).min(data.len())].to_vec();
                while b.len() < bs {
                    b.push(0xee);
                }
                self.disk.put(e.phys + i as u64, b);
            }
        }
        exts
    }

    pub fn add_bytes_file(&mut self, attr: &Attr, data: Vec<u8>, m: Mapping) -> u32 {
        let ino = self.alloc_ino();
        let exts = self.put_bytes(&data, m);
        let (ib, fl) = self.map(ino, &exts, m, data.len() as u64);
        self.put_inode(ino, S_IFREG | attr.perm, attr, data.len() as u64, attr.flags | fl, &ib, 1);
        self.model.inodes.insert(
            ino,
            MInode {
                ino,
                mode: S_IFREG | attr.perm,
                uid: attr.uid,
                gid: attr.gid,
                size: data.len() as u64,
                flags: attr.flags | fl,
                kind: Kind::Reg(Content::Bytes(data)),
                note: "bytes file".into(),
            },
        );
        ino
    }

    pub fn add_symlink(&mut self, attr: &Attr, target: &[u8], m: Mapping) -> u32 {
        let ino = self.alloc_ino();
        let size = target.len() as u64;
        let mut fl = 0;
        let mut ib = [0u8; 60];
        if target.len() < 60 {
            ib[..target.len()].copy_from_slice(target);
        } else {
            let exts = self.put_bytes(target, m);
            for e in &exts {
                for i in 0..e.len as u64 {
                    self.structs.push(Struct {
                        kind: StructKind::Target(ino),
                        off: (e.phys + i) * self.cfg.bs as u64,
                        len: self.cfg.bs,
                    });
                }
            }
            let r = self.map(ino, &exts, m, size);
            ib = r.0;
            fl = r.1;
        }
        let perm = if self.rng.chance(3, 4) { 0o777 } else { attr.perm };
        self.put_inode(ino, S_IFLNK | perm, attr, size, attr.flags | fl, &ib, 1);
        self.model.inodes.insert(
            ino,
            MInode {
                ino,
                mode: S_IFLNK | perm,
                uid: attr.uid,
                gid: attr.gid,
                size,
                flags: attr.flags | fl,
                kind: Kind::Link(target.to_vec()),
                note: format!("symlink len={}", size),
            },
        );
        ino
    }

    pub fn add_special(&mut self, attr: &Attr, ifmt: u16) -> u32 {
        let ino = self.alloc_ino();
        let mut ib = [0u8; 60];
        if ifmt == S_IFCHR || ifmt == S_IFBLK {
            w32(&mut ib, 4, self.rng.u32());
        }
        // The size of such a node means nothing, and need not be zero.
        let size = if self.rng.chance(1, 8) { self.rng.below(5000) } else { 0 };
        self.put_inode(ino, ifmt | attr.perm, attr, size, attr.flags, &ib, 1);
        self.model.inodes.insert(
            ino,
            MInode {
                ino,
                mode: ifmt | attr.perm,
                uid: attr.uid,
                gid: attr.gid,
                size,
                flags: attr.flags,
                kind: Kind::Special,
                note: "special".into(),
            },
        );
        ino
    }

    /// Write a directory (inode `ino`, allocated by the caller; entries exclude
    /// `.` and `..`).
    pub fn put_dir(&mut self, ino: u32, parent: u32, attr: &Attr, entries: &[DEnt], spec: &DirSpec) {
        let bs = self.cfg.bs as usize;
        let seed = self.iseed(ino);
        let dot = DEnt { name: b".".to_vec(), ino, ft: 2 };
        let dotdot = DEnt { name: b"..".to_vec(), ino: parent, ft: 2 };
        let mut kinds: Vec<StructKind> = Vec::new();
        let (blocks, note): (Vec<Vec<u8>>, String) = if let Some(h) = &spec.htree {
            let (b, k, note) = self.htree_blocks(ino, seed, &dot, &dotdot, entries, spec, h);
            kinds = k;
            (b, note)
        } else {
            let mut all = vec![dot.clone(), dotdot.clone()];
            all.extend_from_slice(entries);
            let b = self.linear_blocks(&all, spec, seed);
            let n = b.len();
            (b, format!("linear blocks={}", n))
        };
        if kinds.is_empty() {
            kinds = blocks.iter().map(|_| StructKind::DirLeaf(ino)).collect();
        }
        let size = (blocks.len() * bs) as u64;
        let hi = self.hi_for(spec.mapping);
        let contig = match spec.mapping {
            Mapping::Extents { contig, .. } | Mapping::BlockMap { contig, .. } => contig,
        };
        let exts = self.alloc_runs(&[Run { lblk: 0, len: blocks.len() as u32, unw: false }], contig, hi, 2);
        for e in &exts {
            for i in 0..e.len {
                let l = (e.lblk + i) as usize;
                self.disk.put(e.phys + i as u64, blocks[l].clone());
                self.structs.push(Struct {
                    kind: kinds[l].clone(),
                    off: (e.phys + i as u64) * bs as u64,
                    len: bs as u32,
                });
            }
        }
        let (ib, mut fl) = self.map(ino, &exts, spec.mapping, size);
        if spec.htree.is_some() {
            fl |= FL_INDEX;
        }
        let links = 2;
        self.put_inode(ino, S_IFDIR | attr.perm, attr, size, attr.flags | fl, &ib, links);
        let mut all = vec![dot, dotdot];
        all.extend_from_slice(entries);
        self.used_ino.insert(ino);
        self.model.inodes.insert(
            ino,
            MInode {
                ino,
                mode: S_IFDIR | attr.perm,
                uid: attr.uid,
                gid: attr.gid,
                size,
                flags: attr.flags | fl,
                kind: Kind::Dir(all),
                note,
            },
        );
    }

    fn linear_blocks(&mut self, ents: &[DEnt], spec: &DirSpec, seed: u32) -> Vec<Vec<u8>> {
        let usable = self.cfg.dir_usable();
        let mut out = Vec::new();
        let mut cur: Vec<DEnt> = Vec::new();
        let mut fill = 0usize;
        let limit = (usable as u64 * spec.fill.clamp(5, 100) / 100) as usize;
        for e in ents {
            let mut todo = vec![];
            if spec.deleted > 0 && self.rng.chance(spec.deleted, 100) && out.len() + cur.len() > 1 {
                // A deleted entry with a stale name.
                let n = self.rng.range(1, 40) as usize;
                let mut name = vec![b'd'; n];
                name[0] = b'a' + self.rng.below(26) as u8;
                let ft = *self.rng.pick(&[0u8, 1, 2, 7, 0xde, 0xff]);
                todo.push(DEnt { name, ino: 0, ft });
            }
            todo.push(e.clone());
            for t in todo {
                let need = 8 + t.name.len().div_ceil(4) * 4;
                if fill + need > usable || (fill > limit && cur.len() >= 2) {
                    out.push(std::mem::take(&mut cur));
                    fill = 0;
                }
                fill += need;
                cur.push(t);
            }
        }
        if !cur.is_empty() {
            out.push(cur);
        }
        // Entirely empty blocks (all entries deleted), not first.
        if spec.deleted > 0 {
            let mut i = 1;
            while i <= out.len() {
                if self.rng.chance(spec.deleted, 400) {
                    out.insert(i, vec![DEnt { name: b"gone".to_vec(), ino: 0, ft: 1 }]);
                    i += 1;
                }
                i += 1;
            }
        }
        out.iter().map(|b| self.leaf_block(b, spec, seed)).collect()
    }

    /// Pack entries into one directory block.
    pub fn leaf_block(&mut self, ents: &[DEnt], spec: &DirSpec, seed: u32) -> Vec<u8> {
        let bs = self.cfg.bs as usize;
        let usable = self.cfg.dir_usable();
        let mut b = vec![0u8; bs];
        if spec.slack > 0 {
            self.rng.fill(&mut b);
        }
        let need: Vec<usize> = ents.iter().map(|e| 8 + e.name.len().div_ceil(4) * 4).collect();
        let total: usize = need.iter().sum();
        assert!(total <= usable, "mkfs: dir block overfull");
        let mut spare = usable - total;
        let mut pos = 0;
        for (i, e) in ents.iter().enumerate() {
            let mut len = need[i];
            if i + 1 == ents.len() {
                len += spare;
            } else if spec.slack > 0 && self.rng.chance(spec.slack, 100) {
                let s = (self.rng.below(spare as u64 / 4 / 2 + 1) * 4) as usize;
                len += s;
                spare -= s;
            }
            w32(&mut b, pos, e.ino);
            w16(&mut b, pos + 4, enc_rec_len(len, bs));
            b[pos + 6] = e.name.len() as u8;
            b[pos + 7] = e.ft;
            b[pos + 8..pos + 8 + e.name.len()].copy_from_slice(&e.name);
            // In slack: stale entries that must not be listed.
            if len >= need[i] + 24 && spec.slack > 0 {
                let s = pos + need[i];
                w32(&mut b, s, 11 + self.rng.below(20) as u32);
                w16(&mut b, s + 4, enc_rec_len(pos + len - s, bs));
                b[s + 6] = 9;
                b[s + 7] = 1;
                b[s + 8..s + 17].copy_from_slice(b"stale_ent");
            }
            pos += len;
        }
        assert_eq!(pos, usable);
        if self.cfg.csum {
            dir_tail(&mut b);
            dirleaf_csum(seed, &mut b);
        }
        b
    }

    #[allow(clippy::too_many_arguments)]
    fn htree_blocks(
        &mut self,
        ino: u32,
        seed: u32,
        dot: &DEnt,
        dotdot: &DEnt,
        entries: &[DEnt],
        spec: &DirSpec,
        h: &HtreeSpec,
    ) -> (Vec<Vec<u8>>, Vec<StructKind>, String) {
        let bs = self.cfg.bs as usize;
        let usable = self.cfg.dir_usable();
        let uns = self.cfg.unsigned_hash();
        let hs = self.cfg.hash_seed;
        let mut v: Vec<(u32, DEnt)> = entries
            .iter()
            .map(|e| (dirhash(&e.name, h.alg, uns, &hs), e.clone()))
            .collect();
        self.rng.shuffle(&mut v);
        v.sort_by_key(|x| x.0);
        // Split into leaves.
        let mut leaves: Vec<(u32, Vec<DEnt>)> = Vec::new();
        let mut cur: Vec<DEnt> = Vec::new();
        let mut cur_hash = 0u32;
        let mut fill = 0;
        let mut last_hash = None;
        let mut spans = 0;
        let mut cap = self.rng.range(1, h.leaf_max as u64) as usize;
        for (hash, e) in v {
            let need = 8 + e.name.len().div_ceil(4) * 4;
            let split = last_hash == Some(hash) && self.rng.chance(1, 2);
            if !cur.is_empty() && (cur.len() >= cap || split || fill + need > usable) {
                leaves.push((cur_hash, std::mem::take(&mut cur)));
                fill = 0;
                cur_hash = hash;
                if last_hash == Some(hash) {
                    cur_hash |= 1;
                    spans += 1;
                }
                cap = self.rng.range(1, h.leaf_max as u64) as usize;
            }
            last_hash = Some(hash);
            fill += need;
            cur.push(e);
        }
        if !cur.is_empty() || leaves.is_empty() {
            leaves.push((cur_hash, cur));
        }
        // Empty leaves now and then (all entries deleted).
        if spec.deleted > 0 && leaves.len() > 1 && self.rng.bool() {
            let i = self.rng.range(1, leaves.len() as u64 - 1) as usize;
            let lo = {
                let prev = &leaves[i - 1].1;
                prev.iter().map(|e| dirhash(&e.name, h.alg, uns, &hs)).max().unwrap_or(leaves[i - 1].0)
            };
            let hi = leaves[i].0;
            if hi & 1 == 0 && hi > lo && hi - lo > 4 {
                let mid = (lo + (hi - lo) / 2) & !1;
                if mid > lo && mid < hi {
                    leaves.insert(i, (mid, vec![]));
                }
            }
        }
        let csz = if self.cfg.csum { 8 } else { 0 };
        let root_lim = (bs - 0x20 - csz) / 8;
        let node_lim = (bs - 8 - csz) / 8;
        // Logical block numbers for all nodes except the root, shuffled.
        let mut levels: Vec<Vec<(u32, usize)>> = Vec::new(); // (hash, index in `nodes`)
        enum N {
            Leaf(Vec<DEnt>),
            Node(Vec<(u32, usize)>),
        }
        let mut nodes: Vec<N> = Vec::new();
        let mut level: Vec<(u32, usize)> = Vec::new();
        for (hash, l) in leaves {
            nodes.push(N::Leaf(l));
            level.push((hash, nodes.len() - 1));
        }
        let nleaves = level.len();
        let packed = h.node_max == usize::MAX || self.rng.chance(1, 6);
        let mut depth = 0u8;
        while depth < h.depth || level.len() > root_lim {
            levels.push(level.clone());
            let mut next = Vec::new();
            let mut nm = h.node_max.clamp(1, node_lim);
            let left = 2u32.saturating_sub(depth as u32).max(1);
            while nm < node_lim && nm.pow(left) * root_lim < 2 * level.len() {
                nm += 1;
            }
            let mut i = 0;
            while i < level.len() {
                let n = (self.rng.range(1, nm as u64) as usize).min(level.len() - i);
                let n = if packed || level.len() > root_lim * nm / 2 { nm.min(level.len() - i) } else { n };
                let chunk = level[i..i + n].to_vec();
                next.push((chunk[0].0, nodes.len()));
                nodes.push(N::Node(chunk));
                i += n;
            }
            level = next;
            depth += 1;
        }
        let total = nodes.len();
        let mut pos: Vec<u32> = (1..=total as u32).collect();
        if spec.shuffle_blocks {
            self.rng.shuffle(&mut pos);
        }
        let mut blocks = vec![vec![]; total + 1];
        let mut kinds = vec![StructKind::DxRoot(ino); total + 1];
        for i in 0..total {
            let p = pos[i] as usize;
            match &nodes[i] {
                N::Leaf(ents) => {
                    let mut ents = ents.clone();
                    self.rng.shuffle(&mut ents);
                    if ents.is_empty() {
                        ents.push(DEnt { name: b"gone".to_vec(), ino: 0, ft: 1 });
                    } else if spec.deleted > 0 && self.rng.chance(spec.deleted, 100) {
                        let used: usize =
                            ents.iter().map(|e| 8 + e.name.len().div_ceil(4) * 4).sum();
                        if used + 24 < usable {
                            let at = self.rng.usize(ents.len() + 1);
                            ents.insert(at, DEnt { name: b"erased".to_vec(), ino: 0, ft: 1 });
                        }
                    }
                    blocks[p] = self.leaf_block(&ents, spec, seed);
                    kinds[p] = StructKind::DirLeaf(ino);
                }
                N::Node(ch) => {
                    let mut b = vec![0u8; bs];
                    if spec.slack > 0 {
                        self.rng.fill(&mut b);
                    }
                    w32(&mut b, 0, 0);
                    w16(&mut b, 4, enc_rec_len(bs, bs));
                    b[6] = 0;
                    b[7] = 0;
                    for (k, (hash, c)) in ch.iter().enumerate() {
                        w32(&mut b, 8 + 8 * k, *hash);
                        w32(&mut b, 12 + 8 * k, pos[*c]);
                    }
                    w16(&mut b, 8, node_lim as u16);
                    w16(&mut b, 10, ch.len() as u16);
                    if self.cfg.csum {
                        dx_csum(seed, &mut b, 8);
                    }
                    blocks[p] = b;
                    kinds[p] = StructKind::DxNode(ino);
                }
            }
        }
        let mut b = vec![0u8; bs];
        if spec.slack > 0 {
            self.rng.fill(&mut b);
        }
        w32(&mut b, 0, dot.ino);
        w16(&mut b, 4, 12);
        b[6] = 1;
        b[7] = 2;
        b[8..12].copy_from_slice(b".\0\0\0");
        w32(&mut b, 12, dotdot.ino);
        w16(&mut b, 16, enc_rec_len(bs - 12, bs));
        b[18] = 2;
        b[19] = 2;
        b[20..24].copy_from_slice(b"..\0\0");
        w32(&mut b, 0x18, 0);
        b[0x1c] = h.alg.disk();
        b[0x1d] = 8;
        b[0x1e] = depth;
        b[0x1f] = 0;
        for (k, (hash, c)) in level.iter().enumerate() {
            w32(&mut b, 0x20 + 8 * k, *hash);
            w32(&mut b, 0x24 + 8 * k, pos[*c]);
        }
        w16(&mut b, 0x20, root_lim as u16);
        w16(&mut b, 0x22, level.len() as u16);
        if self.cfg.csum {
            dx_csum(seed, &mut b, 0x20);
        }
        blocks[0] = b;
        (
            blocks,
            kinds,
            format!("htree {:?} depth={} leaves={} collision_spans={}", h.alg, depth, nleaves, spans),
        )
    }

    /// Allocate the journal inode with `n` blocks: number 8, unless the
    /// journal was added to a filesystem in use.
    pub fn add_journal_inode(&mut self, n: u32, m: Mapping) {
        let contig = match m {
            Mapping::Extents { contig, .. } | Mapping::BlockMap { contig, .. } => contig,
        };
        let ino = if self.rng.chance(1, 3) { self.alloc_ino() } else { 8 };
        self.jino = ino;
        let hi = self.hi_for(m);
        let exts = self.alloc_runs(&[Run { lblk: 0, len: n, unw: false }], contig, hi, 3);
        for e in &exts {
            for i in 0..e.len as u64 {
                self.jblocks.push(e.phys + i);
                self.disk.put(e.phys + i, vec![0; self.cfg.bs as usize]);
            }
        }
        let size = n as u64 * self.cfg.bs as u64;
        let (ib, fl) = self.map(ino, &exts, m, size);
        let attr = Attr { perm: 0o600, uid: 0, gid: 0, flags: 0 };
        self.put_inode(ino, S_IFREG | 0o600, &attr, size, fl, &ib, 1);
    }

    /// Write a group descriptor; what no reader needs is random.
    pub fn write_bgd(&mut self, g: u32) -> bool {
        let cfg = self.cfg.clone();
        let it = match self.itables.get(&g) {
            Some(b) => *b,
            None if cfg.csum => 0,
            None => return false,
        };
        let n = cfg.dsize() as usize;
        let mut d = self.rng.bytes(n);
        w32(&mut d, 8, it as u32);
        if cfg.is64 {
            w32(&mut d, 0x28, (it >> 32) as u32);
        }
        w16(&mut d, 0x12, 0);
        if cfg.csum || cfg.ro & 0x10 != 0 {
            bgd_csum(&cfg, g, &mut d);
        }
        self.disk.write(cfg.bgd_off(g), &d);
        true
    }

    /// Write superblock and descriptors.
    pub fn finish(mut self) -> Image {
        let cfg = self.cfg.clone();
        for g in 0..cfg.groups() {
            if self.write_bgd(g) && self.structs.len() < 100_000 {
                self.structs.push(Struct { kind: StructKind::Bgd(g), off: cfg.bgd_off(g), len: cfg.dsize() as u32 });
            }
        }
        // Stale boot sector.
        let boot = self.rng.bytes(1024);
        self.disk.write(0, &boot);
        self.write_sb();
        self.structs.push(Struct { kind: StructKind::Sb, off: 1024, len: 1024 });
        Image {
            disk: self.disk,
            model: self.model,
            cfg,
            structs: self.structs,
            itables: self.itables,
            gens: self.gens,
            used: self.used,
            jblocks: self.jblocks,
            jino: self.jino,
        }
    }

    /// Write the superblock; what no reader needs is random.
    pub fn write_sb(&mut self) {
        let cfg = self.cfg.clone();
        let mut s = self.rng.bytes(1024);
        w32(&mut s, 0x0, cfg.groups().wrapping_mul(cfg.ipg));
        w32(&mut s, 0x4, cfg.nblocks as u32);
        w32(&mut s, 0x14, cfg.fdb());
        w32(&mut s, 0x18, cfg.bs.trailing_zeros() - 10);
        let ratio = if cfg.bigalloc() { 1 + cfg.nblocks as u32 % 5 } else { 0 };
        w32(&mut s, 0x1c, cfg.bs.trailing_zeros() - 10 + ratio);
        w32(&mut s, 0x20, cfg.bpg);
        w32(&mut s, 0x24, cfg.bpg >> ratio);
        w32(&mut s, 0x28, cfg.ipg);
        w16(&mut s, 0x38, 0xef53);
        w16(&mut s, 0x3a, 1);
        w32(&mut s, 0x48, 0);
        w32(&mut s, 0x4c, 1);
        w32(&mut s, 0x54, 11);
        w16(&mut s, 0x58, cfg.inode_size);
        w32(&mut s, 0x5c, cfg.compat);
        w32(&mut s, 0x60, cfg.incompat);
        w32(&mut s, 0x64, cfg.ro);
        s[0x68..0x78].copy_from_slice(&cfg.uuid);
        s[0x78..0x88].copy_from_slice(&cfg.label);
        w32(&mut s, 0xe0, self.jino);
        for i in 0..4 {
            w32(&mut s, 0xec + 4 * i, cfg.hash_seed[i]);
        }
        s[0xfc] = 1;
        w16(&mut s, 0xfe, if cfg.is64 { cfg.desc_size } else { 0 });
        w32(&mut s, 0x104, 0); // first_meta_bg
        w32(&mut s, 0x150, (cfg.nblocks >> 32) as u32);
        w16(&mut s, 0x15c, 32);
        w16(&mut s, 0x15e, 32);
        w32(&mut s, 0x160, cfg.s_flags);
        s[0x175] = 1; // checksum type
        if let Some(x) = cfg.csum_seed {
            w32(&mut s, 0x270, x);
        }
        if cfg.csum {
            sb_csum(&mut s);
        }
        self.disk.write(1024, &s);
    }
}

pub fn enc_rec_len(len: usize, bs: usize) -> u16 {
    if len < 65536 {
        len as u16
    } else {
        debug_assert!(len == 65536 && bs == 65536);
        0xffff
    }
}

pub fn iseed(cfg: &Cfg, ino: u32, gen: u32) -> u32 {
    crc32c(crc32c(cfg.fs_seed(), &ino.to_le_bytes()), &gen.to_le_bytes())
}

pub fn sb_csum(s: &mut [u8]) {
    let c = crc32c(!0, &s[..0x3fc]);
    w32(s, 0x3fc, c);
}

pub fn bgd_csum(cfg: &Cfg, g: u32, d: &mut [u8]) {
    w16(d, 0x1e, 0);
    if !cfg.csum {
        // uninit_bg (GDT_CSUM): CRC-16.
        let mut c = crc16(!0, &cfg.uuid);
        c = crc16(c, &g.to_le_bytes());
        c = crc16(c, &d[..0x1e]);
        c = crc16(c, &d[0x20..]);
        w16(d, 0x1e, c);
        return;
    }
    let c = crc32c(crc32c(cfg.fs_seed(), &g.to_le_bytes()), d);
    w16(d, 0x1e, c as u16);
}

pub fn inode_csum(cfg: &Cfg, ino: u32, b: &mut [u8]) {
    let gen = r32(b, 0x64);
    let wide = b.len() > 128 && r16(b, 0x80) >= 4;
    w16(b, 0x7c, 0);
    if wide {
        w16(b, 0x82, 0);
    }
    let c = crc32c(iseed(cfg, ino, gen), b);
    w16(b, 0x7c, c as u16);
    if wide {
        w16(b, 0x82, (c >> 16) as u16);
    }
}

pub fn crc16(mut c: u16, data: &[u8]) -> u16 {
    for b in data {
        c ^= *b as u16;
        for _ in 0..8 {
            c = if c & 1 != 0 { (c >> 1) ^ 0xa001 } else { c >> 1 };
        }
    }
    c
}

pub fn extent_csum(seed: u32, node: &mut [u8]) {
    let off = 12 + 12 * r16(node, 4) as usize;
    if off + 4 <= node.len() {
        let c = crc32c(seed, &node[..off]);
        w32(node, off, c);
    }
}

pub fn dir_tail(b: &mut [u8]) {
    let o = b.len() - 12;
    w32(b, o, 0);
    w16(b, o + 4, 12);
    b[o + 6] = 0;
    b[o + 7] = 0xde;
}

pub fn dirleaf_csum(seed: u32, b: &mut [u8]) {
    let o = b.len() - 12;
    let c = crc32c(seed, &b[..o]);
    w32(b, o + 8, c);
}

pub fn dx_csum(seed: u32, b: &mut [u8], at: usize) {
    let count = r16(b, at + 2) as usize;
    let end = at + count * 8;
    if end > b.len() - 8 {
        return;
    }
    let t = b.len() - 8;
    let mut c = crc32c(seed, &b[..end]);
    c = crc32c(c, &b[t..t + 4]);
    c = crc32c(c, &[0; 4]);
    w32(b, t + 4, c);
}

impl Image {
    /// Recompute every checksum from what is on the disk (after mutation).
    pub fn refix(&self, disk: &mut Disk) {
        for s in &self.structs {
            self.refix_one(disk, s);
        }
    }
    pub fn refix_one(&self, disk: &mut Disk, s: &Struct) {
        if !self.cfg.csum {
            return;
        }
        let mut b = vec![0; s.len as usize];
        if !disk.read(s.off, &mut b) {
            return;
        }
        let gen = |ino: u32| -> u32 {
            // The generation as stored now.
            let g = (ino - 1) / self.cfg.ipg;
            let i = (ino - 1) % self.cfg.ipg;
            if let Some(t) = self.itables.get(&g) {
                let mut x = [0; 4];
                disk.read(t * self.cfg.bs as u64 + i as u64 * self.cfg.inode_size as u64 + 0x64, &mut x);
                u32::from_le_bytes(x)
            } else {
                0
            }
        };
        match &s.kind {
            StructKind::Sb => sb_csum(&mut b),
            StructKind::Bgd(g) => bgd_csum(&self.cfg, *g, &mut b),
            StructKind::Inode(i) => inode_csum(&self.cfg, *i, &mut b),
            StructKind::Extent(i) => extent_csum(iseed(&self.cfg, *i, gen(*i)), &mut b),
            StructKind::DirLeaf(i) => dirleaf_csum(iseed(&self.cfg, *i, gen(*i)), &mut b),
            StructKind::DxRoot(i) => dx_csum(iseed(&self.cfg, *i, gen(*i)), &mut b, 0x20),
            StructKind::DxNode(i) => dx_csum(iseed(&self.cfg, *i, gen(*i)), &mut b, 8),
            _ => return,
        }
        disk.write(s.off, &b);
    }
}

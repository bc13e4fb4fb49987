//! C10 (committed transactions are applied), C11 (torn and damaged journals).

use super::read::{load, WF};
use super::store::{paths_of, rand_op};
use crate::ctx::Ctx;
use crate::disk::{Block, Disk};
use crate::gen::*;
use crate::mkfs::*;
use crate::model::*;
use crate::mon::Mon;
use crate::ops::*;
use crate::rng::{fnv, mix, Rng};
use crate::sums::crc32c;
use crate::verify::{verify_tree, Limits};
use crate::Prop;
use ext4_view::Ext4;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::Arc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C10",
            level: "exploration",
            quick: 3500,
            thorough: 350000,
            cpu: 150,
            rule: "one case = one generated filesystem and a history of 1-8 transactions of random edits (create, unlink, rename, mkdir, symlink, chattr, truncate, data rewrite, noise) written as a journal (random log start, wrap of log and sequence numbers, several descriptors, revocations before and after rewrites, full revocation blocks, stale older generation after the end), home blocks old, new, partly checkpointed or garbage; the whole tree and random operations compared with the model of the last state. Non-trivial: a block whose visible version is decided by the journal (several versions, a revocation, a rewrite after revocation); distinct by (block, version, history)",
            assumptions: WF,
            run: c10,
        },
        Prop {
            id: "C11",
            level: "fault_enumeration",
            quick: 1200,
            thorough: 120000,
            cpu: 200,
            rule: "one case = one generated journal history; the log is cut at every block (clean cuts must give exactly the committed transactions), and torn, partly lost, bit-flipped, swapped or overwritten in one or more blocks (the result must be one committed prefix, or an error); every operation's result filters the set of prefixes it agrees with. Non-trivial: distinct (cut or damage, history)",
            assumptions: WF,
            run: c11,
        },
    ]
}

fn b32(b: &mut [u8], o: usize, v: u32) {
    b[o..o + 4].copy_from_slice(&v.to_be_bytes());
}
fn g32(b: &[u8], o: usize) -> u32 {
    u32::from_be_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]])
}

pub const JMAGIC: u32 = 0xc03b_3998;

pub struct Txn {
    pub seq: u32,
    pub writes: Vec<(u64, Vec<u8>)>,
    pub revokes: Vec<u64>,
    pub direct: Vec<(u64, Vec<u8>)>,
    pub log: Vec<(Vec<u8>, &'static str)>,
}

pub struct Hist {
    /// The state before the first transaction (with an empty journal area).
    pub s0: Image,
    pub models: Vec<Model>,
    pub txns: Vec<Txn>,
    pub uuid: [u8; 16],
    pub first: u32,
    pub maxlen: u32,
    pub start: u32,
    /// Structures of the last state.
    pub structs: Vec<Struct>,
    pub used: HashSet<u64>,
    /// Blocks whose home must stay readable (needed to find the journal).
    pub protected: HashSet<u64>,
    /// What lies in the log area where the log has not written.
    pub bg: Vec<Vec<u8>>,
    pub note: String,
}

#[derive(Clone, Debug)]
pub struct JOpts {
    /// 0: data goes home directly, 1: data is journaled, 2: mixed.
    pub data: u64,
    /// Directly written blocks are never blocks used before.
    pub safe: bool,
    pub jlen: (u64, u64),
    pub txns: (u64, u64),
    /// The superblock and group descriptors are journaled too, and the
    /// filesystem may grow.
    pub sb: bool,
    pub grow: bool,
    /// Transactions of hundreds of blocks.
    pub bulk: bool,
    /// The log lies about a boundary of 2^16 blocks, or at the end.
    pub vast: bool,
}

/// Encode one transaction.
pub fn emit(r: &mut Rng, bs: usize, uuid: &[u8; 16], seq: u32, writes: &[(u64, Vec<u8>)], revokes: &[u64]) -> Vec<(Vec<u8>, &'static str)> {
    let seed = crc32c(!0, uuid);
    let head = |ty: u32| {
        let mut b = vec![0; bs];
        b32(&mut b, 0, JMAGIC);
        b32(&mut b, 4, ty);
        b32(&mut b, 8, seq);
        b
    };
    let mut units: Vec<Vec<(Vec<u8>, &'static str)>> = Vec::new();
    let small = r.chance(2, 5);
    let with_uuids = r.chance(1, 8);
    let mut i = 0;
    while i < writes.len() {
        let want = if small { r.range(1, 6) as usize } else { usize::MAX };
        let mut b = head(1);
        let mut o = 12;
        let mut data = Vec::new();
        let mut last = 0;
        while i < writes.len() && data.len() < want {
            let uuid_here = data.is_empty() || (with_uuids && r.bool());
            let n = if uuid_here { 32 } else { 16 };
            if o + n > bs - 4 {
                break;
            }
            let (blk, d) = &writes[i];
            assert!(g32(d, 0) != JMAGIC, "mkfs: block needs escaping");
            b32(&mut b, o, *blk as u32);
            b32(&mut b, o + 4, if uuid_here { 0 } else { 2 });
            b32(&mut b, o + 8, (*blk >> 32) as u32);
            b32(&mut b, o + 12, crc32c(crc32c(seed, &seq.to_be_bytes()), d));
            if uuid_here {
                b[o + 16..o + 32].copy_from_slice(uuid);
            }
            last = o;
            o += n;
            data.push((d.clone(), "jdata"));
            i += 1;
        }
        let f = g32(&b, last + 4);
        b32(&mut b, last + 4, f | 8);
        if r.chance(1, 4) {
            r.fill(&mut b[o..bs - 4]);
        }
        let c = crc32c(seed, &b);
        b32(&mut b, bs - 4, c);
        let mut u = vec![(b, "jdesc")];
        u.extend(data);
        units.push(u);
    }
    let mut i = 0;
    let cap = (bs - 4 - 16) / 8;
    while i < revokes.len() {
        let n = if r.chance(1, 3) { r.range(1, 5) as usize } else { cap }.min(revokes.len() - i).min(cap);
        let mut b = head(5);
        b32(&mut b, 12, 16 + 8 * n as u32);
        for k in 0..n {
            b[16 + 8 * k..24 + 8 * k].copy_from_slice(&revokes[i + k].to_be_bytes());
        }
        if r.chance(1, 4) {
            r.fill(&mut b[16 + 8 * n..bs - 4]);
        }
        let c = crc32c(seed, &b);
        b32(&mut b, bs - 4, c);
        units.push(vec![(b, "jrevoke")]);
        i += n;
    }
    r.shuffle(&mut units);
    let mut out: Vec<_> = units.into_iter().flatten().collect();
    let mut b = head(2);
    if r.bool() {
        r.fill(&mut b[0x14..]);
    } else {
        r.fill(&mut b[0x30..0x3c]);
    }
    b32(&mut b, 16, 0);
    let c = crc32c(seed, &b);
    b32(&mut b, 16, c);
    out.push((b, "jcommit"));
    out
}

/// Recompute the checksum of a journal block from its own contents.
pub fn rejournal(kind: &str, uuid: &[u8; 16], b: &mut [u8]) {
    let seed = crc32c(!0, uuid);
    let n = b.len();
    match kind {
        "jsb" => {
            b32(b, 0xfc, 0);
            let c = crc32c(!0, &b[..1024]);
            b32(b, 0xfc, c);
        }
        "jdesc" | "jrevoke" => {
            b32(b, n - 4, 0);
            let c = crc32c(seed, b);
            b32(b, n - 4, c);
        }
        "jcommit" => {
            b32(b, 16, 0);
            let c = crc32c(seed, b);
            b32(b, 16, c);
        }
        _ => {}
    }
}

// ---------------------------------------------------------------- edits

struct Ed<'a> {
    mk: &'a mut Mk,
    o: &'a GenOpts,
    /// Blocks freed by this transaction.
    dead: Vec<u64>,
    /// Blocks that must be journaled (overwritten in place).
    must: HashSet<u64>,
    /// The superblock and descriptors may be written; blocks to grow to.
    sb: bool,
    grow: u64,
    log: Vec<String>,
}

impl Ed<'_> {
    fn free_structs(&mut self, ino: u32) {
        let bs = self.mk.cfg.bs as u64;
        let mut dead = Vec::new();
        self.mk.structs.retain(|s| {
            let own = match &s.kind {
                StructKind::Extent(i) | StructKind::Indirect(i) | StructKind::DirLeaf(i) | StructKind::DxRoot(i) | StructKind::DxNode(i) | StructKind::Target(i) => *i == ino,
                StructKind::Inode(i) => {
                    if *i == ino {
                        return false;
                    }
                    false
                }
                _ => false,
            };
            if own {
                dead.push(s.off / bs);
            }
            !own
        });
        self.dead.extend(dead);
    }
    fn attr(&self, ino: u32) -> Attr {
        let n = self.mk.model.get(ino);
        Attr { perm: n.mode & 0o7777, uid: n.uid, gid: n.gid, flags: n.flags & !(FL_EXTENTS | FL_INDEX) }
    }
    fn entries(&self, dir: u32) -> (Vec<DEnt>, u32) {
        let n = self.mk.model.get(dir);
        let parent = n.entries().iter().find(|e| e.name == b"..").map(|e| e.ino).unwrap_or(2);
        (n.entries().iter().filter(|e| e.name != b"." && e.name != b"..").cloned().collect(), parent)
    }
    fn write_dir(&mut self, r: &mut Rng, dir: u32, parent: u32, ents: &[DEnt]) {
        let a = self.attr(dir);
        self.free_structs(dir);
        let ht = r.chance(self.o.htree, 100) && !ents.is_empty();
        let spec = gen_dirspec(r, &self.mk.cfg, self.o, ht);
        self.mk.put_dir(dir, parent, &a, ents, &spec);
    }
    fn add(&mut self, r: &mut Rng, dir: u32, name: Vec<u8>, ino: u32, ft: u8) {
        let (mut e, p) = self.entries(dir);
        let at = r.usize(e.len() + 1);
        e.insert(at, DEnt { name, ino, ft });
        self.write_dir(r, dir, p, &e);
    }
    fn new_name(&self, r: &mut Rng, dir: u32) -> Vec<u8> {
        loop {
            let n = gen_name(r, self.o.plain_names);
            if self.mk.model.lookup(dir, &n).is_none() {
                return n;
            }
        }
    }
    fn patch(&mut self, ino: u32, f: impl FnOnce(&mut [u8])) {
        let off = self.mk.ino_off(ino);
        let mut b = vec![0; self.mk.cfg.inode_size as usize];
        self.mk.disk.read(off, &mut b);
        f(&mut b);
        if self.mk.cfg.csum {
            inode_csum(&self.mk.cfg, ino, &mut b);
        }
        self.mk.disk.write(off, &b);
    }
    /// Changes of the superblock and the descriptors.
    fn sb_step(&mut self, r: &mut Rng) {
        let cfg = self.mk.cfg.clone();
        match r.below(4) {
            0 => {
                let mut l = [0; 16];
                let n = r.usize(17);
                r.fill(&mut l[..n]);
                self.mk.cfg.label = l;
                self.mk.model.label = l;
                self.log.push(format!("label {:02x?}", l));
            }
            1 => self.log.push("superblock counters".into()),
            2 | 3 if self.grow > cfg.nblocks => {
                // Online resize: new groups in use at once.
                self.mk.cfg.nblocks = self.grow;
                self.mk.alloc_hi = self.grow;
                self.log.push(format!("grow to {} blocks, {} groups", self.grow, self.mk.cfg.groups()));
                for g in cfg.groups()..self.mk.cfg.groups() {
                    self.mk.itable(g);
                    self.mk.write_bgd(g);
                }
            }
            _ => {
                // Counters of groups.
                for _ in 0..r.range(1, 4) {
                    let g = r.below(cfg.groups() as u64) as u32;
                    self.mk.write_bgd(g);
                }
                self.log.push("group counters".into());
                return;
            }
        }
        self.mk.write_sb();
    }
    fn step(&mut self, r: &mut Rng) {
        let dirs = self.mk.model.dir_paths();
        let (dpath, dir) = r.pick(&dirs).clone();
        let all = self.mk.model.all_paths();
        let paths: Vec<Vec<u8>> = all.iter().map(|x| x.0.clone()).chain([b"/".to_vec()]).collect();
        let (ents, parent) = self.entries(dir);
        if self.sb && r.chance(1, 3) {
            self.sb_step(r);
            return;
        }
        let k = r.below(12);
        match k {
            0 | 1 => {
                let a = gen_attr(r);
                let mut budget = 200;
                let ext = self.mk.cfg.extents;
                let ino = gen_file(r, self.mk, self.o, ext, &a, &mut budget);
                let n = self.new_name(r, dir);
                self.log.push(format!("create {} in {}", esc(&n), esc(&dpath)));
                self.add(r, dir, n, ino, 1);
            }
            2 if !ents.is_empty() => {
                let i = r.usize(ents.len());
                let mut e = ents.clone();
                let x = e.remove(i);
                self.log.push(format!("unlink {} in {}", esc(&x.name), esc(&dpath)));
                self.write_dir(r, dir, parent, &e);
                let links = self.mk.model.inodes.values().flat_map(|n| n.entries()).filter(|e| e.ino == x.ino).count();
                if x.ft != 2 && links == 0 {
                    self.free_structs(x.ino);
                    for e in self.mk.exts.remove(&x.ino).unwrap_or_default() {
                        for k in 0..e.len as u64 {
                            self.dead.push(e.phys + k);
                        }
                    }
                    // The inode is cleared.
                    self.patch(x.ino, |b| {
                        w16(b, 0x1a, 0);
                        w32(b, 0x14, 1_700_000_000);
                    });
                }
            }
            3 if !ents.is_empty() => {
                // Rename.
                let i = r.usize(ents.len());
                let mut e = ents.clone();
                let mut x = e.remove(i);
                let (tpath, to) = if x.ft == 2 { (dpath.clone(), dir) } else { r.pick(&dirs).clone() };
                self.write_dir(r, dir, parent, &e);
                let n = self.new_name(r, to);
                self.log.push(format!("rename {} from {} to {} in {}", esc(&x.name), esc(&dpath), esc(&n), esc(&tpath)));
                x.name = n;
                self.add(r, to, x.name, x.ino, x.ft);
            }
            4 => {
                let t = gen_target(r, &paths, &dpath, self.mk.cfg.bs);
                let a = gen_attr(r);
                let m = gen_mapping(r, self.mk.cfg.extents);
                let ino = self.mk.add_symlink(&a, &t, m);
                let n = self.new_name(r, dir);
                self.log.push(format!("symlink {} in {}", esc(&n), esc(&dpath)));
                self.add(r, dir, n, ino, 7);
            }
            5 => {
                let ino = self.mk.alloc_ino();
                let a = gen_attr(r);
                let spec = gen_dirspec(r, &self.mk.cfg, self.o, false);
                self.mk.put_dir(ino, dir, &a, &[], &spec);
                let n = self.new_name(r, dir);
                self.log.push(format!("mkdir {} in {}", esc(&n), esc(&dpath)));
                self.add(r, dir, n, ino, 2);
            }
            6 | 7 => {
                // Change attributes of an inode.
                let ino = if all.is_empty() || r.chance(1, 6) { dir } else { r.pick(&all).1 };
                let a = gen_attr(r);
                self.log.push(format!("chattr inode {}", ino));
                let ty = self.mk.model.get(ino).mode & 0xf000;
                self.patch(ino, |b| {
                    w16(b, 0, ty | a.perm);
                    w16(b, 2, a.uid as u16);
                    w16(b, 0x18, a.gid as u16);
                    w16(b, 0x78, (a.uid >> 16) as u16);
                    w16(b, 0x7a, (a.gid >> 16) as u16);
                });
                let n = self.mk.model.inodes.get_mut(&ino).unwrap();
                n.mode = ty | a.perm;
                n.uid = a.uid;
                n.gid = a.gid;
            }
            8 => {
                // Truncate or extend.
                let v: Vec<u32> = all.iter().map(|x| x.1).filter(|i| self.mk.model.get(*i).is_reg()).collect();
                if v.is_empty() {
                    return;
                }
                let ino = *r.pick(&v);
                let n = self.mk.model.get(ino).clone();
                let ext = n.flags & FL_EXTENTS != 0;
                let pat = matches!(n.kind, Kind::Reg(Content::Pat { .. }));
                let size = if pat && (!ext || r.bool()) {
                    n.size + r.below(3 * self.mk.cfg.bs as u64)
                } else if ext {
                    r.below(n.size + 1)
                } else {
                    return;
                };
                self.log.push(format!("size of inode {}: {} to {}", ino, n.size, size));
                self.patch(ino, |b| {
                    w32(b, 4, size as u32);
                    w32(b, 0x6c, (size >> 32) as u32);
                });
                self.mk.model.inodes.get_mut(&ino).unwrap().size = size;
            }
            9 | 10 => {
                // Rewrite the data of a file in place (journaled data).
                let v: Vec<u32> = all.iter().map(|x| x.1).filter(|i| self.mk.exts.get(i).is_some_and(|e| !e.is_empty())).collect();
                if v.is_empty() {
                    return;
                }
                let ino = *r.pick(&v);
                let exts = self.mk.exts[&ino].clone();
                if exts.iter().map(|e| e.len as u64).sum::<u64>() > 40 {
                    return;
                }
                let nk = mix(r.next());
                if let Some(MInode { kind: Kind::Reg(Content::Pat { key, .. }), .. }) = self.mk.model.inodes.get_mut(&ino) {
                    *key = nk;
                } else {
                    return;
                }
                self.log.push(format!("rewrite inode {}", ino));
                for e in exts.iter().filter(|e| !e.unw) {
                    for k in 0..e.len {
                        self.mk.disk.put_pat(e.phys + k as u64, nk, e.lblk + k);
                        self.must.insert(e.phys + k as u64);
                    }
                }
            }
            _ => {
                // Replace what a name points to, in place.
                let v: Vec<&DEnt> = ents.iter().filter(|e| e.ft != 2).collect();
                if v.is_empty() {
                    return;
                }
                let victim = (*r.pick(&v)).clone();
                let cand: Vec<(u32, u8)> = all.iter().map(|x| (x.1, self.mk.model.get(x.1).ft())).filter(|x| x.1 != 2).collect();
                let (ni, nft) = *r.pick(&cand);
                if self.repoint(dir, &victim.name, ni, nft) {
                    self.log.push(format!("replace {} in {}", esc(&victim.name), esc(&dpath)));
                }
            }
        }
    }
    fn repoint(&mut self, dir: u32, name: &[u8], ino: u32, ft: u8) -> bool {
        let bs = self.mk.cfg.bs as usize;
        let leaves: Vec<u64> = self
            .mk
            .structs
            .iter()
            .filter(|s| matches!(s.kind, StructKind::DirLeaf(i) if i == dir))
            .map(|s| s.off / bs as u64)
            .collect();
        let seed = self.mk.iseed(dir);
        for b in leaves {
            let mut v = self.mk.disk.get(b);
            let mut o = 0;
            let end = self.mk.cfg.dir_usable();
            while o + 8 <= end {
                let len = match r16(&v, o + 4) as usize {
                    0xffff | 0 => bs,
                    x => x,
                };
                let nl = v[o + 6] as usize;
                if r32(&v, o) != 0 && &v[o + 8..o + 8 + nl] == name {
                    w32(&mut v, o, ino);
                    v[o + 7] = ft;
                    // Entry type on disk.
                    v[o + 7] = disk_ft(ft);
                    if self.mk.cfg.csum {
                        dirleaf_csum(seed, &mut v);
                    }
                    self.mk.disk.put(b, v);
                    if let Kind::Dir(e) = &mut self.mk.model.inodes.get_mut(&dir).unwrap().kind {
                        for x in e.iter_mut().filter(|x| x.name == name) {
                            x.ino = ino;
                            x.ft = ft;
                        }
                    }
                    return true;
                }
                o += len;
            }
        }
        false
    }
}

/// Directory entry type byte of a file type.
fn disk_ft(ft: u8) -> u8 {
    ft
}

fn changed(a: &Disk, b: &Disk) -> Vec<u64> {
    let mut v: Vec<u64> = b
        .blocks
        .iter()
        .filter(|(k, x)| match (a.blocks.get(k), x) {
            (Some(Block::Bytes(p)), Block::Bytes(q)) => !Arc::ptr_eq(p, q) && p != q,
            (Some(Block::Pat(p, l)), Block::Pat(q, m)) => p != q || l != m,
            _ => a.get(**k) != b.get(**k),
        })
        .map(|(k, _)| *k)
        .collect();
    v.sort_unstable();
    v
}

pub fn history(r: &mut Rng, o: &GenOpts, jo: &JOpts) -> Option<Hist> {
    let mut o = o.clone();
    let jlen = r.range(jo.jlen.0, jo.jlen.1) as u32;
    o.blocks += jlen as u64 * 2 + 800;
    o.encrypt = false;
    let mut mk = gen_tree(r, &o);
    // Descriptors are not journaled: all inode tables exist from the start.
    for g in 0..mk.cfg.groups().min(8) {
        mk.itable(g);
    }
    mk.frozen = true;
    mk.cfg.compat |= 4;
    mk.cfg.incompat |= 4;
    let m = gen_mapping(r, mk.cfg.extents);
    mk.add_journal_inode(jlen, m);
    let bs = mk.cfg.bs as u64;
    let mut grow = 0;
    if jo.grow && mk.cfg.groups() < 300 && r.bool() {
        // Within the descriptor blocks there are.
        let room = mk.cfg.gdt_blocks() * bs / mk.cfg.dsize() as u64;
        let g = room.min(mk.cfg.groups() as u64 + r.range(0, 4));
        grow = mk.cfg.fdb() as u64 + g * mk.cfg.bpg as u64;
        mk.disk.len = mk.disk.len.max(grow * bs);
    }
    let gdt_end = mk.cfg.gdt_start() + mk.cfg.gdt_blocks();
    let s0 = mk.clone().finish();
    mk.disk = s0.disk.clone();
    let mut protected: HashSet<u64> = (0..mk.cfg.gdt_start() + mk.cfg.gdt_blocks()).collect();
    protected.insert(mk.ino_off(mk.jino) / bs);
    for s in &s0.structs {
        if matches!(s.kind, StructKind::Extent(i) | StructKind::Indirect(i) if i == s0.jino) {
            protected.insert(s.off / bs);
        }
    }
    let jset: HashSet<u64> = s0.jblocks.iter().copied().collect();
    let mut uuid = [0; 16];
    if r.bool() {
        uuid = mk.cfg.uuid;
    } else {
        r.fill(&mut uuid);
    }
    let first = if r.chance(2, 3) { 1 } else { r.range(1, 6) as u32 };
    let mut room = jlen - first;
    let ntx = r.range(jo.txns.0, jo.txns.1);
    let seq0 = match r.below(4) {
        0 => 1,
        1 => 0u32.wrapping_sub(r.range(0, ntx) as u32),
        _ => r.u32(),
    };
    let mut models = vec![mk.model.clone()];
    let mut txns: Vec<Txn> = Vec::new();
    // Blocks with a journaled version in the log that is not revoked since.
    let mut in_log: HashSet<u64> = HashSet::new();
    let mut ever_used: HashSet<u64> = mk.used.clone();
    let mut free: Vec<u64> = Vec::new();
    let mut note = String::new();
    for t in 0..ntx {
        let seq = seq0.wrapping_add(t as u32);
        let before = mk.clone();
        let mut ed = Ed { mk: &mut mk, o: &o, dead: vec![], must: HashSet::new(), sb: jo.sb, grow, log: vec![] };
        // Give back what earlier transactions freed.
        ed.mk.prefer = free.clone();
        // A transaction of nothing but revocations, of blocks that the next
        // one may well write.
        let only = t + 1 < ntx && r.chance(1, 10);
        for _ in 0..match r.below(12) {
            _ if only => 0,
            0 => 0,
            1 => r.range(4, 7),
            _ => r.range(1, 3),
        } {
            ed.step(r);
        }
        let Ed { dead, must, log, .. } = ed;
        mk.prefer.clear();
        free.retain(|b| !mk.used.contains(b));
        let now_free: HashSet<u64> = free.iter().copied().collect();
        // Split what changed.
        let meta: HashSet<u64> = mk
            .structs
            .iter()
            .flat_map(|s| s.off / bs..=(s.off + s.len as u64 - 1) / bs)
            .chain(0..gdt_end)
            .chain(mk.itables.values().flat_map(|b| {
                let n = (mk.cfg.ipg as u64 * mk.cfg.inode_size as u64).div_ceil(bs);
                *b..*b + n
            }))
            .collect();
        let deadset: HashSet<u64> = dead.iter().copied().collect();
        let mut writes: Vec<(u64, Vec<u8>)> = Vec::new();
        let mut direct: Vec<(u64, Vec<u8>)> = Vec::new();
        let mut ch = changed(&before.disk, &mk.disk);
        // A block taken into use again is written even if it comes out as it
        // was last: its home may hold something else by now.
        ch.extend(mk.used.iter().filter(|b| !before.used.contains(b) && ever_used.contains(b)));
        ch.sort_unstable();
        ch.dedup();
        for b in ch {
            if deadset.contains(&b) && r.bool() {
                // Written, then freed in the same transaction.
                continue;
            }
            let d = mk.disk.get(b);
            let fresh = !ever_used.contains(&b);
            let home = !meta.contains(&b) && !must.contains(&b) && !in_log.contains(&b) && (fresh || !jo.safe) && !deadset.contains(&b);
            let home = home
                && match jo.data {
                    0 => true,
                    1 => false,
                    _ => r.bool(),
                };
            if home {
                direct.push((b, d));
            } else {
                writes.push((b, d));
            }
        }
        // Revocations of what was freed.
        let mut revokes: Vec<u64> = Vec::new();
        for b in &dead {
            if r.chance(2, 3) {
                revokes.push(*b);
            }
        }
        // Noise: versions of free blocks, which nobody may see.
        for b in now_free.iter().copied().collect::<BTreeSet<_>>() {
            match r.below(10) {
                _ if only => {}
                0 => writes.push((b, junk(r, bs as usize))),
                1 => revokes.push(b),
                2 => {
                    writes.push((b, junk(r, bs as usize)));
                    revokes.push(b);
                }
                _ => {}
            }
        }
        // Blocks never used so far.
        let mut fresh_set: HashSet<u64> = writes.iter().map(|w| w.0).collect();
        let fresh = if only { 0 } else if jo.bulk && room > 200 && r.chance(1, 2) { r.range(100, 1500.min(room as u64)) } else { r.below(4) };
        for _ in 0..fresh {
            let b = r.below(mk.cfg.nblocks);
            if !mk.used.contains(&b) && !free.contains(&b) && !jset.contains(&b) && !fresh_set.contains(&b) {
                fresh_set.insert(b);
                writes.push((b, junk(r, bs as usize)));
                free.push(b);
                ever_used.insert(b);
            }
        }
        // Revocations of blocks that the log does not hold.
        let cap = (bs as usize - 20) / 8;
        let fill = match r.below(8) {
            _ if only => 0,
            0 => cap - (revokes.len() % cap),
            1 => r.below(2 * cap as u64) as usize,
            _ => r.below(3) as usize,
        };
        let wset: HashSet<u64> = writes.iter().map(|w| w.0).collect();
        for _ in 0..fill.min(600) {
            let b = r.below(mk.cfg.nblocks);
            if !in_log.contains(&b) && !wset.contains(&b) {
                revokes.push(b);
            }
        }
        let hot: BTreeSet<u64> = meta.iter().copied().filter(|b| mk.disk.blocks.contains_key(b) && !in_log.contains(b) && !wset.contains(b)).collect();
        let hot: Vec<u64> = hot.into_iter().collect();
        if !hot.is_empty() && (only || r.chance(1, 4)) {
            for _ in 0..*r.pick(&[1, 1, 2, 5]) {
                revokes.push(*r.pick(&hot));
            }
        }
        r.shuffle(&mut writes);
        r.shuffle(&mut revokes);
        let lg = emit(r, bs as usize, &uuid, seq, &writes, &revokes);
        if lg.len() as u32 > room {
            mk = before;
            break;
        }
        room -= lg.len() as u32;
        for b in &revokes {
            in_log.remove(b);
        }
        for (b, _) in &writes {
            if !revokes.contains(b) {
                in_log.insert(*b);
            }
        }
        for b in dead {
            if mk.used.remove(&b) {
                free.push(b);
            }
        }
        // (A repaired allocation may come from a block freed in this very
        // transaction only through `free`, that is from the next one on.)
        ever_used.extend(mk.used.iter());
        note.push_str(&format!("t{}[{}; {} writes {} revokes {} direct] ", t, log.join(", "), writes.len(), revokes.len(), direct.len()));
        txns.push(Txn { seq, writes, revokes, direct, log: lg });
        models.push(mk.model.clone());
    }
    let total: u32 = txns.iter().map(|t| t.log.len() as u32).sum();
    let maxlen = match r.below(6) {
        0 if total > 0 => first + total,
        1 => r.range((first + total).max(first + 1) as u64, jlen as u64) as u32,
        _ => jlen,
    };
    let start = match r.below(4) {
        n if jo.vast && n < 2 => (0x10000 - r.range(0, 4 + total as u64) as u32).clamp(first, maxlen - 1),
        0 => first,
        1 => r.range(maxlen.saturating_sub(total.max(1)).max(first) as u64, maxlen as u64 - 1) as u32,
        _ => r.range(first as u64, maxlen as u64 - 1) as u32,
    };
    let mut h = Hist {
        models,
        txns,
        uuid,
        first,
        maxlen,
        start,
        structs: mk.structs.clone(),
        used: mk.used.clone(),
        protected,
        bg: vec![],
        note: String::new(),
        s0,
    };
    h.note = format!(
        "{} | journal len={} first={} max={} start={} seq0={:#x} log={} | {}",
        h.s0.cfg.describe(),
        jlen,
        first,
        maxlen,
        start,
        seq0,
        total,
        note
    );
    h.background(r, seq0);
    Some(h)
}

fn junk(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut b = r.bytes(n);
    b[0] = 0x11;
    b
}

impl Hist {
    fn bs(&self) -> usize {
        self.s0.cfg.bs as usize
    }
    /// Disk block of the `i`th block of the log (from the start of the log).
    pub fn pos(&self, i: usize) -> u64 {
        let n = (self.maxlen - self.first) as usize;
        let k = ((self.start - self.first) as usize + i) % n;
        self.s0.jblocks[self.first as usize + k]
    }
    pub fn flat(&self) -> Vec<(usize, &'static str, &Vec<u8>)> {
        self.txns.iter().enumerate().flat_map(|(t, x)| x.log.iter().map(move |(b, k)| (t, *k, b))).collect()
    }
    /// An older generation of the log, or other leftovers.
    fn background(&mut self, r: &mut Rng, seq0: u32) {
        let bs = self.bs();
        let n = (self.maxlen - self.first) as usize;
        let mode = r.below(5);
        let mut live: Vec<u64> = self.s0.disk.blocks.keys().copied().filter(|b| !self.protected.contains(b)).collect();
        live.sort_unstable();
        let mut s: Vec<Vec<u8>> = Vec::new();
        match mode {
            0 => s = vec![vec![0; bs]; n],
            1 => {
                for _ in 0..n {
                    s.push(junk(r, bs));
                }
            }
            _ => {
                // Transactions with earlier sequence numbers, ending just
                // before the first one of the present log.
                let mut groups: Vec<Vec<Vec<u8>>> = Vec::new();
                let mut q = seq0.wrapping_sub(1);
                let mut have = 0;
                while have < n {
                    let w: Vec<(u64, Vec<u8>)> = (0..r.below(6)).map(|_| (*r.pick(&live), junk(r, bs))).collect();
                    let v: Vec<u64> = (0..r.below(4)).map(|_| *r.pick(&live)).collect();
                    let g: Vec<Vec<u8>> = emit(r, bs, &self.uuid, q, &w, &v).into_iter().map(|x| x.0).collect();
                    have += g.len();
                    groups.push(g);
                    q = q.wrapping_sub(1);
                }
                let all: Vec<Vec<u8>> = groups.into_iter().rev().flatten().collect();
                s = all[all.len() - n..].to_vec();
                if mode == 4 {
                    let k = r.usize(n);
                    s.rotate_left(k);
                }
            }
        }
        // s[k] lies k blocks after the start of the log.
        self.bg = s;
    }
    pub fn jsb(&self, r: &mut Rng, empty: bool) -> Vec<u8> {
        let mut b = vec![0; self.bs()];
        r.fill(&mut b[1024..]);
        b32(&mut b, 0, JMAGIC);
        b32(&mut b, 4, 4);
        b32(&mut b, 0xc, self.bs() as u32);
        b32(&mut b, 0x10, self.maxlen);
        b32(&mut b, 0x14, self.first);
        b32(&mut b, 0x18, self.txns.first().map(|t| t.seq).unwrap_or(5));
        b32(&mut b, 0x1c, if empty { 0 } else { self.start });
        b32(&mut b, 0x28, 0x12 | if self.txns.iter().any(|t| !t.revokes.is_empty()) || r.bool() { 1 } else { 0 });
        b[0x30..0x40].copy_from_slice(&self.uuid);
        b32(&mut b, 0x40, 1);
        b[0x50] = 4;
        if r.bool() {
            r.fill(&mut b[0x100..0x400]);
        }
        let c = crc32c(!0, &b[..1024]);
        b32(&mut b, 0xfc, c);
        b
    }
    /// Which journaled version of each block is the visible one after `j`
    /// transactions: (transaction, index into its writes).
    pub fn effective(&self, j: usize) -> BTreeMap<u64, (usize, usize)> {
        let mut e = BTreeMap::new();
        for (t, x) in self.txns[..j].iter().enumerate() {
            let rv: HashSet<u64> = x.revokes.iter().copied().collect();
            for b in &rv {
                e.remove(b);
            }
            for (i, (b, _)) in x.writes.iter().enumerate() {
                if !rv.contains(b) {
                    e.insert(*b, (t, i));
                }
            }
        }
        e
    }
    /// Home blocks after a crash with `j` transactions committed.
    pub fn home(&self, r: &mut Rng, j: usize, garbage: bool) -> Disk {
        let mut d = self.s0.disk.clone();
        for x in &self.txns[..j] {
            for (b, v) in &x.direct {
                d.put(*b, v.clone());
            }
        }
        // Data written early for the next transaction.
        if let Some(x) = self.txns.get(j) {
            let p = r.below(3);
            for (b, v) in &x.direct {
                if p == 2 || (p == 1 && r.bool()) {
                    d.put(*b, v.clone());
                }
            }
        }
        let eff = self.effective(j);
        let style = r.below(4);
        // The superblock and descriptors agree with each other.
        let gdt_end = self.s0.cfg.gdt_start() + self.s0.cfg.gdt_blocks();
        let own = r.below(2);
        for (b, (t, i)) in &eff {
            match if *b < gdt_end { own } else { style } {
                0 => {}
                1 => {
                    // All checkpointed.
                    d.put(*b, self.txns[*t].writes[*i].1.clone());
                }
                _ => match r.below(4) {
                    0 => d.put(*b, self.txns[*t].writes[*i].1.clone()),
                    1 => {
                        // An older version.
                        let k = r.usize(*t + 1);
                        if let Some(w) = self.txns[k].writes.iter().find(|w| w.0 == *b) {
                            if !self.protected.contains(b) || k == *t {
                                d.put(*b, w.1.clone());
                            }
                        }
                    }
                    2 if garbage && !self.protected.contains(b) => d.put(*b, junk(r, self.s0.cfg.bs as usize)),
                    _ => {}
                },
            }
        }
        d
    }
    /// Write the superblock of the journal and the first `n` log blocks.
    pub fn put_log(&self, r: &mut Rng, d: &mut Disk, n: usize, empty: bool) {
        // Slack between the superblock and the log, and after its end.
        for i in (1..self.first as usize).chain(self.maxlen as usize..self.s0.jblocks.len()) {
            let v = junk(r, self.bs());
            d.put(self.s0.jblocks[i], v);
        }
        for (k, b) in self.bg.iter().enumerate() {
            d.put(self.pos(k), b.clone());
        }
        for (k, (_, _, b)) in self.flat().into_iter().take(n).enumerate() {
            d.put(self.pos(k), b.clone());
        }
        let jsb = self.jsb(r, empty);
        d.put(self.s0.jblocks[0], jsb);
    }
    /// The final state as an image.
    pub fn image(&self, r: &mut Rng, garbage: bool) -> Image {
        let mut d = self.home(r, self.txns.len(), garbage);
        self.put_log(r, &mut d, usize::MAX, false);
        let mut img = self.s0.clone();
        img.disk = d;
        img.model = self.models.last().unwrap().clone();
        let own = |s: &Struct| matches!(s.kind, StructKind::Inode(i) | StructKind::Extent(i) | StructKind::Indirect(i) if i == self.s0.jino);
        img.structs = self.s0.structs.iter().filter(|s| matches!(s.kind, StructKind::Sb | StructKind::Bgd(_)) || own(s)).cloned().collect();
        img.structs.extend(self.structs.iter().filter(|s| !own(s)).cloned());
        let bs = self.bs() as u64;
        img.structs.push(Struct { kind: StructKind::Journal("jsb"), off: self.s0.jblocks[0] * bs, len: bs as u32 });
        for (k, (_, kind, _)) in self.flat().iter().enumerate() {
            img.structs.push(Struct { kind: StructKind::Journal(kind), off: self.pos(k) * bs, len: bs as u32 });
        }
        img.used = self.used.clone();
        img
    }
}

pub fn jopts(r: &mut Rng) -> JOpts {
    JOpts {
        data: r.below(3),
        safe: false,
        jlen: *r.pick(&[(30, 60), (60, 160), (160, 400)]),
        txns: (1, 8),
        sb: r.chance(1, 2),
        grow: false,
        bulk: false,
        vast: false,
    }
}

/// A filesystem that needs recovery, with its final state as the model.
pub fn journaled(r: &mut Rng, o: &GenOpts) -> Option<Image> {
    let mut o = o.clone();
    o.bs.retain(|b| *b <= 4096);
    if o.bs.is_empty() {
        o.bs = vec![1024];
    }
    let jo = JOpts { jlen: (40, 90), txns: (1, 5), ..jopts(r) };
    let h = history(r, &o, &jo)?;
    Some(h.image(r, true))
}

pub fn small_opts(r: &mut Rng) -> GenOpts {
    GenOpts {
        blocks: *r.pick(&[200u64, 400, 900]),
        huge: 15,
        nodes: *r.pick(&[(3, 8), (6, 18), (10, 30)]),
        htree: 30,
        bigdir: if r.chance(1, 8) { 80 } else { 0 },
        max_lblk: *r.pick(&[40, 300, 2000]),
        file_blocks: 10,
        bs: vec![1024, 1024, 1024, 2048, 4096, 4096, 8192, 65536],
        plain_names: r.chance(1, 2),
        ..Default::default()
    }
}

/// Paths that exist in any state, to ask for in each.
fn union_paths(h: &Hist) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = h.models.iter().flat_map(paths_of).collect();
    v.sort();
    v.dedup();
    v
}

// ------------------------------------------------------------------ C10

fn c10(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let mut o = small_opts(&mut r);
    let mut jo = JOpts { grow: true, ..jopts(&mut r) };
    if r.chance(1, 30) {
        jo.bulk = true;
        jo.jlen = (800, 4000);
        o.bs = vec![1024, 1024, 2048];
    } else if r.chance(1, 250) {
        // Journals of more than 2^16 blocks, as large filesystems have.
        jo.vast = true;
        jo.jlen = (65_530, 66_000);
        o.bs = vec![1024];
    }
    let Some(h) = history(&mut r, &o, &jo) else {
        ctx.eval(1);
        return;
    };
    ctx.note(h.note.clone());
    let n = h.txns.len();
    let all = union_paths(&h);
    ctx.sample(|| h.note.clone());
    ctx.count("transactions", n as u64);
    ctx.count("log_blocks", h.flat().len() as u64);
    ctx.count("revocations", h.txns.iter().map(|t| t.revokes.len() as u64).sum());
    for (t, k) in [("label", "labels_journaled"), ("grow to", "filesystems_grown"), ("group counters", "descriptors_journaled")] {
        ctx.count(k, h.note.matches(t).count() as u64);
    }
    ctx.count("transactions_above_500_blocks", h.txns.iter().filter(|t| t.writes.len() > 500).count() as u64);
    if h.maxlen > 0x10000 {
        ctx.count("journals_above_65536_blocks", 1);
    }
    if h.start as usize + h.flat().len() > h.maxlen as usize {
        ctx.count("logs_that_wrap", 1);
    }
    if h.txns.windows(2).any(|w| w[1].seq < w[0].seq) {
        ctx.count("sequence_wraps", 1);
    }
    if h.flat().len() as u32 == h.maxlen - h.first {
        ctx.count("logs_exactly_full", 1);
    }
    let hist = fnv(h.note.as_bytes());
    // What the journal decides.
    let eff = h.effective(n);
    let mut versions: BTreeMap<u64, u32> = BTreeMap::new();
    for x in &h.txns {
        for (b, _) in &x.writes {
            *versions.entry(*b).or_insert(0) += 1;
        }
    }
    for (b, k) in &versions {
        match eff.get(b) {
            Some(_) if *k > 1 => ctx.count("blocks_with_several_versions", 1),
            None => ctx.count("blocks_with_all_versions_revoked", 1),
            _ => {}
        }
        ctx.nontrivial(mix(hist ^ *b ^ (*k as u64) << 50 ^ eff.get(b).map(|x| x.0 as u64 + 1).unwrap_or(0) << 40));
    }
    let rounds = if ctx.thorough { 3 } else { 2 };
    for round in 0..rounds {
        if round > 0 && ctx.tired() {
            break;
        }
        let img = h.image(&mut r, true);
        let Some((fs, _)) = load(&img, ctx) else { return };
        let k = verify_tree(&fs, &img.model, ctx, &Limits { full: 1 << 20 });
        ctx.eval(k);
        let mut dg = Digests::default();
        for p in &all {
            for kind in [OpK::SymMeta, OpK::Canon] {
                let op = Op { k: kind, path: p.clone() };
                let got = exec(&fs, &op);
                ctx.eval(1);
                if let Some(msg) = judge(&img.model, &op, &got, &mut dg) {
                    ctx.fail("wrong-result", msg);
                }
            }
        }
        for _ in 0..60 {
            let op = rand_op(&mut r, &img.model, &all, 100_000);
            let got = exec(&fs, &op);
            ctx.eval(1);
            if let Some(msg) = judge(&img.model, &op, &got, &mut dg) {
                ctx.fail("wrong-result", msg);
            }
        }
        if ctx.failed > 0 {
            return;
        }
    }
    // Variants in which the journal counts for nothing.
    match r.below(3) {
        0 => {
            // Recovery not needed: the log is left from before.
            let mut d = h.s0.disk.clone();
            let stale = r.bool();
            h.put_log(&mut r, &mut d, usize::MAX, stale);
            if r.bool() {
                // Not even a valid one.
                let v = junk(&mut r, h.bs());
                d.put(h.s0.jblocks[0], v);
            }
            let mut sb = vec![0; 1024];
            d.read(1024, &mut sb);
            let f = r32(&sb, 0x60) & !4;
            w32(&mut sb, 0x60, f);
            if h.s0.cfg.csum {
                sb_csum(&mut sb);
            }
            d.write(1024, &sb);
            let mut img = h.s0.clone();
            img.disk = d;
            let Some((fs, _)) = load(&img, ctx) else { return };
            let k = verify_tree(&fs, &img.model, ctx, &Limits { full: 1 << 20 });
            ctx.eval(k);
            ctx.count("journals_to_ignore", 1);
        }
        1 => {
            // An empty log.
            let mut d = h.s0.disk.clone();
            h.put_log(&mut r, &mut d, usize::MAX, true);
            let mut img = h.s0.clone();
            img.disk = d;
            let Some((fs, _)) = load(&img, ctx) else { return };
            let k = verify_tree(&fs, &img.model, ctx, &Limits { full: 1 << 20 });
            ctx.eval(k);
            ctx.count("empty_logs", 1);
        }
        _ => {}
    }
}

// ------------------------------------------------------------------ C11

/// Which states agree with what the filesystem shows; None if the load fails
/// in an acceptable way.
fn candidates(h: &Hist, disk: Disk, ops: &[Op], only: Option<usize>, what: &str, dgs: &mut [Digests], ctx: &mut Ctx) -> Option<Vec<usize>> {
    let mon = Mon::new(disk);
    let fs = match Ext4::load(mon.boxed()) {
        Ok(f) => f,
        Err(e) => {
            ctx.eval(1);
            match (&only, errk(&e)) {
                (None, ErrK::Corrupt | ErrK::Incompatible) => {
                    ctx.count("damaged_journals_refused", 1);
                    return None;
                }
                _ => {
                    ctx.fail("load-failed", format!("{}: {:?}", what, e));
                    return None;
                }
            }
        }
    };
    let mut c: Vec<usize> = match only {
        Some(j) => vec![j],
        None => (0..h.models.len()).collect(),
    };
    for op in ops {
        let got = exec(&fs, op);
        ctx.eval(1);
        let was = c.clone();
        c.retain(|j| judge(&h.models[*j], op, &got, &mut dgs[*j]).is_none());
        if c.is_empty() {
            let w: Vec<String> = was.iter().take(3).map(|j| format!("after {}: {}", j, judge(&h.models[*j], op, &got, &mut dgs[*j]).unwrap_or_default())).collect();
            ctx.fail("not-a-committed-state", format!("{}: {} gives {}; {}", what, op.show(), got.short(), w.join("; ")));
            return Some(vec![]);
        }
    }
    Some(c)
}

fn state_ops(h: &Hist, r: &mut Rng, all: &[Vec<u8>], n: usize) -> Vec<Op> {
    let mut ops = Vec::new();
    let mut p: Vec<&Vec<u8>> = all.iter().collect();
    r.shuffle(&mut p);
    for p in p.into_iter().take(n) {
        let m = r.pick(&h.models);
        let node = resolve(m, p, false).any.first().and_then(|x| x.as_ref().ok().map(|x| m.get(x.0).clone()));
        ops.push(Op { k: OpK::SymMeta, path: p.clone() });
        match node {
            Some(x) if x.is_dir() => ops.push(Op { k: OpK::ListMeta, path: p.clone() }),
            Some(x) if x.is_reg() && x.size < 60_000 => ops.push(Op { k: OpK::Read, path: p.clone() }),
            Some(x) if x.is_link() => ops.push(Op { k: OpK::ReadLink, path: p.clone() }),
            _ => {}
        }
    }
    // A file that has become large in some state is not read whole.
    ops.retain(|op| {
        !matches!(op.k, OpK::Read)
            || h.models.iter().all(|m| {
                resolve(m, &op.path, true).any.iter().all(|x| x.as_ref().map(|x| m.get(x.0).size < 200_000).unwrap_or(true))
            })
    });
    ops
}

/// For img.rs: a journal that was cut, or damaged somewhere.
pub fn torn_image(seed: u64) -> Option<Image> {
    let mut r = Rng::new(seed);
    let mut o = small_opts(&mut r);
    o.huge = 0;
    let mut jo = jopts(&mut r);
    jo.jlen = (30, 60);
    jo.txns = (2, 5);
    jo.safe = true;
    let h = history(&mut r, &o, &jo)?;
    let flat = h.flat();
    if flat.is_empty() {
        return None;
    }
    let mut img = h.image(&mut r, true);
    let mut d = h.s0.disk.clone();
    for x in &h.txns {
        for (b, v) in &x.direct {
            d.put(*b, v.clone());
        }
    }
    if r.chance(1, 3) {
        let n = r.usize(flat.len());
        h.put_log(&mut r, &mut d, n, false);
    } else {
        h.put_log(&mut r, &mut d, usize::MAX, false);
        let k = r.usize(flat.len());
        let mut b = d.get(h.pos(k));
        let n = b.len();
        match r.below(4) {
            0 => {
                let i = 512 * r.range(1, (n / 512) as u64 - 1) as usize;
                let old = h.bg[k].clone();
                b[i..].copy_from_slice(&old[i..]);
            }
            1 => {
                let i = r.usize(n);
                b[i] ^= 1 << r.below(8);
            }
            2 => {
                let i = r.usize(80);
                b[i] = r.u8();
            }
            _ => b = flat[r.usize(flat.len())].2.clone(),
        }
        d.put(h.pos(k), b);
    }
    img.disk = d;
    Some(img)
}

/// Give the damaged block `b` of kind `kind`, `old` undamaged, a checksum that
/// differs from the right one only in some bits, by choosing four bytes nobody
/// needs. (CRCs are linear, so the difference does not depend on the seed.)
fn near_sum(r: &mut Rng, kind: &str, old: &[u8], b: &mut [u8]) -> bool {
    let n = b.len();
    let (at, sum) = match kind {
        "jdata" => (4 + r.usize(n - 8), n..n),
        "jdesc" | "jrevoke" => (n - 8, n - 4..n),
        "jcommit" => (n - 4, 16..20),
        _ => return false,
    };
    if b == old || b[sum.clone()] != old[sum.clone()] {
        return false;
    }
    let raw = |x: &[u8]| {
        let mut x = x.to_vec();
        x[sum.clone()].fill(0);
        crc32c(0, &x)
    };
    let mask = match r.below(8) {
        0 => 0xffff_0000,
        1 | 2 => 0x0000_ffff,
        3 => 0xff,
        4 => 0x7fff_ffff,
        5 => 0xff << (8 * r.below(4)),
        6 => r.u32() | r.u32(),
        _ => !(1 << r.below(32)),
    };
    let left = match r.u32() & !mask {
        0 => 1 << (!mask).trailing_zeros().min(31),
        x => x,
    };
    let base = raw(b);
    let mut want = base ^ raw(old) ^ left;
    let mut rows: Vec<(u32, u32)> = Vec::new();
    for k in 0..32 {
        let (o, bit) = (at + k / 8, 1u8 << (k % 8));
        b[o] ^= bit;
        let mut e = raw(b) ^ base;
        b[o] ^= bit;
        let mut set = 1u32 << k;
        while e != 0 {
            match rows.iter().find(|(x, _)| x.ilog2() == e.ilog2()) {
                Some((x, y)) => {
                    e ^= x;
                    set ^= y;
                }
                None => {
                    rows.push((e, set));
                    break;
                }
            }
        }
    }
    let mut flips = 0u32;
    while want != 0 {
        let Some((x, y)) = rows.iter().find(|(x, _)| x.ilog2() == want.ilog2()) else { return false };
        want ^= x;
        flips ^= y;
    }
    for k in 0..32 {
        if flips >> k & 1 != 0 {
            b[at + k / 8] ^= 1 << (k % 8);
        }
    }
    let d = raw(b) ^ raw(old);
    assert!(d != 0 && d & mask & !left == 0, "near_sum");
    true
}

fn c11(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let o = small_opts(&mut r);
    let mut jo = jopts(&mut r);
    jo.jlen = *r.pick(&[(30, 60), (40, 90), (60, 200)]);
    jo.txns = (1, 6);
    jo.grow = true;
    // Clean cuts allow blocks to be reused for data written directly; for
    // damage inside committed transactions the file system gives no such
    // guarantee, so data never goes to a block that was in use before.
    let damage = r.chance(1, 2);
    jo.safe = damage;
    let Some(h) = history(&mut r, &o, &jo) else {
        ctx.eval(1);
        return;
    };
    ctx.note(h.note.clone());
    ctx.sample(|| format!("{} {}", if damage { "damage" } else { "cuts" }, h.note));
    let hist = fnv(h.note.as_bytes());
    let all = union_paths(&h);
    let mut dgs: Vec<Digests> = h.models.iter().map(|_| Digests::default()).collect();
    let flat = h.flat();
    let total = flat.len();
    // End of each transaction in the log.
    let mut ends = vec![0usize];
    for x in &h.txns {
        ends.push(ends.last().unwrap() + x.log.len());
    }
    let committed = |n: usize| ends.iter().rposition(|e| *e <= n).unwrap();
    if !damage {
        for n in 0..=total {
            if ctx.tired() || ctx.failed > 0 {
                break;
            }
            let j = committed(n);
            let edge = ends.contains(&n) || ends.contains(&(n + 1));
            let safe = n == ends[j] || r.bool();
            let mut d = h.home(&mut r, j, safe);
            h.put_log(&mut r, &mut d, n, false);
            // Torn: part of the next block has been written.
            let mut torn = "";
            if n < total && r.chance(1, 3) {
                let old = d.get(h.pos(n));
                let new = flat[n].2;
                let mut b = old.clone();
                let bs = h.bs();
                match r.below(3) {
                    0 => {
                        let k = r.usize(bs);
                        b[..k].copy_from_slice(&new[..k]);
                    }
                    1 => {
                        let k = 512 * r.usize(bs / 512);
                        b[..k].copy_from_slice(&new[..k]);
                    }
                    _ => {
                        for s in 0..bs / 512 {
                            if r.bool() {
                                b[512 * s..512 * s + 512].copy_from_slice(&new[512 * s..512 * s + 512]);
                            }
                        }
                    }
                }
                // What was there before may be anything.
                let mut near = b.clone();
                if flat[n].1 == "jcommit" && b[bs - 4..] == old[bs - 4..] && r.bool() && near_sum(&mut r, "jcommit", new, &mut near) {
                    b = near;
                    ctx.count("checksums_almost_right", 1);
                }
                if b != *new {
                    d.put(h.pos(n), b);
                    torn = ", next block torn";
                    ctx.count("torn_blocks", 1);
                }
            }
            let ops = state_ops(&h, &mut r, &all, if edge { 40 } else { 12 });
            let kind = if n < total { flat[n].1 } else { "end" };
            let what = format!("log cut after block {} of {} (before a {}{}), {} transactions committed", n, total, kind, torn, j);
            candidates(&h, d, &ops, Some(j), &what, &mut dgs, ctx);
            ctx.count("cuts", 1);
            ctx.distinct("cut_kinds", mix(fnv(kind.as_bytes()) ^ (n > 0) as u64));
            ctx.nontrivial(mix(hist ^ n as u64));
        }
        // Blocks of the last transaction that were lost although its commit
        // block was written.
        for _ in 0..12 {
            if ctx.failed > 0 || h.txns.is_empty() {
                break;
            }
            let j = r.usize(h.txns.len());
            if h.txns[j].log.len() < 2 {
                continue;
            }
            let mut d = h.home(&mut r, j, true);
            h.put_log(&mut r, &mut d, ends[j + 1], false);
            let mut lost = Vec::new();
            for _ in 0..r.range(1, 3) {
                let k = ends[j] + r.usize(h.txns[j].log.len() - 1);
                lost.push((k, flat[k].1));
                // (pos(k) may be shared with nothing else: the log is at most full.)
                let mut b = h.bg[k].clone();
                if flat[k].1 == "jdata" && r.bool() && near_sum(&mut r, "jdata", flat[k].2, &mut b) {
                    ctx.count("checksums_almost_right", 1);
                }
                d.put(h.pos(k), b);
            }
            let what = format!("transaction {} has its commit block but lost {:?}", j, lost);
            let same = lost.iter().any(|(k, _)| crc32c(!0, &d.get(h.pos(*k))) == crc32c(!0, flat[*k].2));
            if same {
                continue;
            }
            let ops = state_ops(&h, &mut r, &all, 30);
            candidates(&h, d, &ops, Some(j), &what, &mut dgs, ctx);
            ctx.count("lost_writes", lost.len() as u64);
            ctx.nontrivial(mix(hist ^ mix(fnv(what.as_bytes()))));
        }
        return;
    }
    // Damage anywhere in the log. Home: as S0 plus all direct data.
    let live: Vec<u64> = h.effective(h.txns.len()).keys().copied().collect();
    for _ in 0..if ctx.thorough { 150 } else { 60 } {
        if ctx.tired() || ctx.failed > 0 {
            break;
        }
        let mut d = h.s0.disk.clone();
        for x in &h.txns {
            for (b, v) in &x.direct {
                d.put(*b, v.clone());
            }
        }
        h.put_log(&mut r, &mut d, usize::MAX, false);
        let mut what = Vec::new();
        let mut min_t = usize::MAX;
        for _ in 0..match r.below(6) {
            0 => 3,
            1 => 2,
            _ => 1,
        } {
            let k = r.usize(total + 1);
            let (blk, kind) = if k == total || total == 0 { (h.s0.jblocks[0], "jsb") } else { (h.pos(k), flat[k].1) };
            let old = d.get(blk);
            let mut b = old.clone();
            let len = if kind == "jsb" { 1024 } else { b.len() };
            let how = r.below(11);
            match how {
                8..=10 if kind == "jrevoke" && !live.is_empty() => {
                    // Blocks that are in the log and in use are revoked.
                    for _ in 0..r.range(1, 20) {
                        let v = *r.pick(&live);
                        let n = ((g32(&b, 12) as usize).saturating_sub(16) / 8).clamp(1, len / 8 - 3);
                        let i = 16 + 8 * r.usize(n);
                        b[i..i + 8].copy_from_slice(&v.to_be_bytes());
                    }
                }
                8..=10 if kind == "jdesc" && !live.is_empty() => {
                    // The version of one block is said to be of another.
                    let v = *r.pick(&live);
                    let i = if r.chance(2, 3) { 12 } else { 44 + 16 * r.usize(4) };
                    if b[i + 8..i + 12] == [0; 4] && i + 16 < len {
                        b32(&mut b, i, v as u32);
                        b32(&mut b, i + 8, (v >> 32) as u32);
                    }
                }
                0 | 1 => {
                    let i = r.usize(len);
                    b[i] ^= 1 << r.below(8);
                }
                2 => {
                    // In the part that is used.
                    let i = r.usize(len.min(80));
                    b[i] = r.u8();
                }
                3 => {
                    let i = r.usize(len);
                    let e = (i + r.range(1, 64) as usize).min(len);
                    r.fill(&mut b[i..e]);
                }
                4 => {
                    let i = r.usize(len);
                    b[i..len].fill(0);
                }
                5 => b[..len].fill(0),
                6 if total > 1 && kind != "jsb" => {
                    // A misdirected write: another log block's contents. (Of
                    // another transaction: nothing in the format tells that a
                    // commit or revocation block stands too early in its own,
                    // or that two directory blocks of one directory have been
                    // exchanged, since a block that ends in its own checksum
                    // has the same checksum whatever it contains.)
                    let j = r.usize(total);
                    let same_sum = crc32c(!0, flat[j].2) == crc32c(!0, flat[k].2);
                    if !same_sum && (flat[j].0 != flat[k].0 || flat[j].1 == "jdata") {
                        b = flat[j].2.clone();
                    }
                }
                7 if kind != "jsb" && kind != "jdata" => {
                    // Another field value, stale checksum.
                    let i = *r.pick(&[4usize, 8, 12, 16, 20, 24]);
                    let v = r.below(6) as u32;
                    b32(&mut b, i, v);
                }
                _ => {
                    let i = r.usize(len);
                    b[i] = b[i].wrapping_add(1);
                }
            }
            let mut near = "";
            if r.chance(1, 3) && near_sum(&mut r, kind, &old, &mut b) {
                near = " (checksum almost right)";
                ctx.count("checksums_almost_right", 1);
            }
            if b != old {
                d.put(blk, b);
                what.push(format!("{} block {} damage {}{}", kind, k, how, near));
                min_t = min_t.min(if kind == "jsb" { 0 } else { flat[k].0 });
            }
        }
        if what.is_empty() {
            continue;
        }
        let what = what.join(", ");
        let ops = state_ops(&h, &mut r, &all, 25);
        if let Some(c) = candidates(&h, d, &ops, None, &what, &mut dgs, ctx) {
            ctx.count("damaged_journals_loaded", 1);
            if c.len() == 1 {
                ctx.count("prefixes_identified_uniquely", 1);
            }
        }
        ctx.count("damages", 1);
        ctx.nontrivial(mix(hist ^ mix(fnv(what.as_bytes())) ^ min_t as u64));
    }
}

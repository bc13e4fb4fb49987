//! `harness img KIND SEED OUT`: write a generated filesystem to OUT (sparse
//! chunks, see tools/view.rs) or OUT.raw (a plain image, with RAW=1), and a
//! list of operations on it to OUT.ops. Development aid: used to validate the
//! generator with e2fsck and to make demonstrations for planted bugs.

use crate::gen::*;
use crate::mkfs::*;
use crate::model::Kind;
use crate::rng::Rng;

pub fn hex(p: &[u8]) -> String {
    p.iter().map(|b| format!("{:02x}", b)).collect()
}

pub fn generate(kind: &str, seed: u64) -> Image {
    let mut r = Rng::new(seed);
    let mut o = GenOpts { huge: 0, blocks: 400, nodes: (5, 25), file_blocks: 6, max_lblk: 300, bs: vec![1024, 1024, 2048, 4096], ..Default::default() };
    match kind {
        "files" => {
            o.max_lblk = *r.pick(&[300, 3000, 70_000, 1_100_000]);
            o.symlinks = 0;
            o.specials = false;
            o.file_blocks = 20;
        }
        "names" => {
            o.bigdir = 400;
            o.collisions = true;
            o.htree = 90;
            o.blocks = 1500;
        }
        "dirs" => {
            o.bigdir = 60;
            o.htree = 0;
        }
        "sym" => {
            o.symlinks = 45;
            o.plain_names = true;
        }
        "enc" => o.encrypt = true,
        "csum" => o.csum = Some(true),
        "huge" => {
            o.huge = 100;
            o.nodes = (3, 8);
        }
        "far" => {
            o.huge = 100;
            o.nodes = (10, 25);
            o.bs = vec![1024];
        }
        "any" => {
            o.bs = vec![1024, 2048, 4096, 8192, 16384, 65536];
            o.bigdir = if r.chance(1, 4) { 90 } else { 0 };
        }
        "journal" => return crate::props::journal_image(seed, std::env::var_os("STRICT").is_some()),
        "torn" => return crate::props::torn_image(seed),
        "hostile" => return crate::props::hostile_image(seed),
        "damage" => return crate::props::damaged_image(seed),
        "fault" => {
            o.nodes = (4, 12);
            o.bigdir = 30;
            o.htree = 50;
            o.bs = vec![1024];
        }
        "feat" => {
            o.csum = Some(r.bool());
            let mut i = gen_image(&mut r, &o);
            let mut s = vec![0; 1024];
            i.disk.read(1024, &mut s);
            let f = r32(&s, 0x60) ^ 1 << (seed % 18);
            w32(&mut s, 0x60, f);
            if i.cfg.csum {
                sb_csum(&mut s);
            }
            i.disk.write(1024, &s);
            return i;
        }
        "cut" => {
            o.blocks = 300;
            o.bs = vec![1024];
            o.huge = 0;
        }
        "valid" => {
            // What e2fsck also accepts.
            o.encrypt = false;
            o.bigdir = if r.chance(1, 3) { 150 } else { 0 };
        }
        k => panic!("kind {}", k),
    }
    gen_image(&mut r, &o)
}

pub fn main(kind: &str, seed: u64, out: &str) {
    let mut img = generate(kind, seed);
    if std::env::var_os("STRICT").is_some() {
        // For other ext4 tools: no junk in superblock fields they check.
        let mut s = vec![0; 1024];
        img.disk.read(1024, &mut s);
        for (a, b) in [(0x8, 0x14), (0x2c, 0x38), (0x3c, 0x4c), (0x50, 0x54), (0x88, 0xe0), (0xe4, 0xec), (0x100, 0x150), (0x154, 0x15c), (0x164, 0x174), (0x176, 0x270), (0x274, 0x3fc)] {
            s[a..b].fill(0);
        }
        let cfg = img.cfg.clone();
        let it_len = (cfg.ipg as u64 * cfg.inode_size as u64).div_ceil(cfg.bs as u64);
        let free = |n: u64, img: &mut Image| -> u64 {
            let mut b = 60;
            while (b..b + n).any(|x| img.used.contains(&x)) {
                b += 1;
            }
            if b + n > cfg.nblocks {
                return 0;
            }
            img.used.extend(b..b + n);
            b
        };
        for g in 0..cfg.groups() {
            let off = cfg.bgd_off(g);
            let mut d = vec![0; cfg.dsize() as usize];
            img.disk.read(off, &mut d);
            let (x, y) = (free(1, &mut img), free(1, &mut img));
            w32(&mut d, 0, x as u32);
            w32(&mut d, 4, y as u32);
            d[0xc..0x1e].fill(0);
            if cfg.is64 {
                d[0x20..0x28].fill(0);
                d[0x2c..].fill(0);
            }
            if !img.itables.contains_key(&g) {
                let t = free(it_len, &mut img);
                w32(&mut d, 8, t as u32);
                if cfg.is64 {
                    w32(&mut d, 0x28, 0);
                }
            }
            if cfg.csum || cfg.ro & 0x10 != 0 {
                bgd_csum(&cfg, g, &mut d);
            }
            img.disk.write(off, &d);
        }
        let tables: Vec<(u32, u64)> = img.itables.iter().map(|x| (*x.0, *x.1)).collect();
        for (g, b) in tables {
            for i in 0..cfg.ipg {
                let ino = g * cfg.ipg + i + 1;
                if !img.model.inodes.contains_key(&ino) && !(ino == 8 && kind == "journal") {
                    let off = b * cfg.bs as u64 + i as u64 * cfg.inode_size as u64;
                    img.disk.write(off, &vec![0; cfg.inode_size as usize]);
                }
            }
        }
        let c = r32(&s, 0x60) | INC_FLEXBG;
        w32(&mut s, 0x60, c);
        if kind != "journal" {
            let c = r32(&s, 0x5c) & !0x4;
            w32(&mut s, 0x5c, c);
            w32(&mut s, 0xe0, 0);
        }
        w16(&mut s, 0x36, 100);
        w16(&mut s, 0x3a, 1);
        s[0x5a] = 0;
        s[0x5b] = 0;
        s[0xcc..0xd0].fill(0);
        s[0x174] = 0;
        let ro = r32(&s, 0x64) & (0x1 | 0x2 | 0x8 | 0x10 | 0x20 | 0x40 | 0x400);
        w32(&mut s, 0x64, ro);
        let c = r32(&s, 0x5c) & 0x24;
        w32(&mut s, 0x5c, c);
        s[0x174] = 4;
        if img.cfg.csum {
            sb_csum(&mut s);
        }
        img.disk.write(1024, &s);
    }
    eprintln!("{}", img.cfg.describe());
    if std::env::var_os("RAW").is_some() {
        use std::os::unix::fs::FileExt;
        let f = std::fs::File::create(out).unwrap();
        f.set_len(img.disk.len).unwrap();
        for b in img.disk.blocks.keys() {
            f.write_all_at(&img.disk.get(*b), b * img.disk.bs as u64).unwrap();
        }
    } else {
        let mut v = b"CHUNKS1\n".to_vec();
        v.extend(img.disk.len.to_le_bytes());
        v.extend((img.disk.bs as u64).to_le_bytes());
        let mut k: Vec<_> = img.disk.blocks.keys().copied().collect();
        k.sort_unstable();
        for b in k {
            v.extend(b.to_le_bytes());
            v.extend(img.disk.get(b));
        }
        std::fs::write(out, v).unwrap();
    }
    let mut ops = String::new();
    let m = &img.model;
    let mut r = Rng::new(seed ^ 77);
    let mut all: Vec<Vec<u8>> = Vec::new();
    for (p, _) in m.dir_paths() {
        ops.push_str(&format!("D {}\n", hex(&p)));
        all.push(p);
    }
    for (p, ino) in m.all_paths() {
        let h = hex(&p);
        ops.push_str(&format!("L {}\n", h));
        let i = m.get(ino);
        match &i.kind {
            Kind::Reg(_) => {
                if i.size < 1 << 22 {
                    ops.push_str(&format!("R {}\nS {}\nO {}\n", h, h, h));
                }
                let mut s = String::new();
                for _ in 0..6 {
                    let p = match r.below(3) {
                        0 => r.below(i.size.max(1)),
                        1 => (r.below(i.size.max(1)) / img.cfg.bs as u64) * img.cfg.bs as u64,
                        _ => i.size.saturating_sub(r.below(100)),
                    };
                    s.push_str(&format!("s{},r{},r{},", p, r.range(1, 3000), r.range(1, 100)));
                }
                ops.push_str(&format!("F {} {}\n", h, s));
            }
            Kind::Link(_) => ops.push_str(&format!("K {}\nC {}\nM {}\n", h, h, h)),
            _ => ops.push_str(&format!("R {}\nM {}\nO {}\nS {}\nD {}\n", h, h, h, h, h)),
        }
        let mut q = p.clone();
        match r.below(3) {
            0 => q.push(b'x'),
            1 => {
                q.pop();
            }
            _ => *q.last_mut().unwrap() ^= 1,
        }
        ops.push_str(&format!("E {}\nE {}\n", h, hex(&q)));
        all.push(p);
    }
    for _ in 0..150 {
        let p = gen_path(&mut r, &all);
        ops.push_str(&format!("{} {}\n", r.pick(&["C", "M", "L", "K", "E", "R", "O", "D", "S"]), hex(&p)));
    }
    if kind == "cut" {
        // Backends of their own, the volume cut somewhere.
        let mut t = String::new();
        let l: Vec<&str> = ops.lines().collect();
        for (i, b) in ["file", "vec", "file", "vec", "file", "file"].iter().enumerate() {
            let n = if i < 2 { img.disk.len } else { r.range(4096, img.disk.len - 1) };
            t.push_str(&format!("load {} {}\n", b, n));
            for _ in 0..40 {
                t.push_str(l[r.usize(l.len())]);
                t.push('\n');
            }
        }
        ops = t;
    }
    if kind == "fault" {
        // Each operation after a transient failure of one of its reads, and
        // again without.
        let mut t = String::from("load\n");
        let l: Vec<&str> = ops.lines().collect();
        for _ in 0..120 {
            let x = l[r.usize(l.len())];
            t.push_str(&format!("fault {} {}\n{}\nfault 0 0\n{}\n", r.below(8), r.pick(&[1, 1, 1, 3]), x, x));
        }
        ops = t;
    }
    std::fs::write(format!("{}.ops", out), ops).unwrap();
    // The model, for tools/crosscheck.py.
    let mut t = String::new();
    for (ino, n) in m.inodes.iter() {
        t.push_str(&format!("I {} {:o} {} {} {}\n", ino, n.mode, n.uid, n.gid, n.size));
        match &n.kind {
            Kind::Reg(c) if n.size <= 8 << 20 => {
                let mut v = vec![0; n.size as usize];
                c.read(0, &mut v);
                let d = v.iter().fold(0xcbf29ce484222325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3));
                t.push_str(&format!("F {} {:016x}\n", ino, d));
            }
            Kind::Link(x) => t.push_str(&format!("T {} {}\n", ino, hex(x))),
            Kind::Dir(es) => {
                for e in es {
                    t.push_str(&format!("E {} {} {} {}\n", ino, e.ino, e.ft, hex(&e.name)));
                }
            }
            _ => {}
        }
    }
    std::fs::write(format!("{}.model", out), t).unwrap();
}

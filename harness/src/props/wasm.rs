//! C21: the library on a platform of 32 bits (see /verif/wasm).

use super::hostile::mutate;
use super::nostd::compare_with;
use super::read::WF;
use super::store::{huge_on_disk, mixed_opts, paths_of, rand_op, Scratch};
use crate::ctx::Ctx;
use crate::disk::{Block, Disk};
use crate::gen::*;
use crate::mon::Mon;
use crate::ops::*;
use crate::rng::mix;
use crate::Prop;
use ext4_view::Ext4;
use std::path::Path;
use std::process::Command;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C21",
        level: "exploration",
        quick: 1000,
        thorough: 120000,
        cpu: 150,
        rule: "one case = one generated filesystem (a quarter damaged, some with files and volumes above 2^32 bytes) read by the library built for wasm32 with overflow checks, and by the native build; the same operations on each. Non-trivial: an operation compared; distinct by (operation, path, image)",
        assumptions: WF,
        run: c21,
    }]
}

/// As /verif/wasm/src/lib.rs parses it.
fn serialize(d: &Disk) -> Vec<u8> {
    let mut v = Vec::new();
    v.extend((d.bs as u64).to_le_bytes());
    v.extend(d.len.to_le_bytes());
    let mut keys: Vec<u64> = d.blocks.keys().copied().collect();
    keys.sort_unstable();
    for k in keys {
        v.extend(k.to_le_bytes());
        match &d.blocks[&k] {
            Block::Bytes(b) => {
                v.push(0);
                v.extend_from_slice(b);
            }
            Block::Pat(a, l) => {
                v.push(1);
                v.extend(a.to_le_bytes());
                v.extend((*l as u64).to_le_bytes());
            }
        }
    }
    v
}

fn command(image: &Path) -> Command {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let mut c = Command::new("node");
    c.arg(format!("{}/wasm/run.mjs", root)).arg(format!("{}/target/wasm/wasm32-unknown-unknown/release/wasm.wasm", root)).arg(image);
    c
}

fn c21(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let mut o = mixed_opts(&mut r);
    o.blocks = *r.pick(&[150u64, 300, 600, 1200]);
    o.bs.extend([16384, 65536]);
    let large = r.chance(1, 3);
    if large {
        // What does not fit in 32 bits: files, volumes, offsets of blocks.
        o.huge = 100;
        o.huge_bytes = r.range(31, 43);
        o.nodes = (8, 20);
        o.max_lblk = *r.pick(&[3000, 70_000, 3_000_000, 5_000_000, 40_000_000]);
        if o.max_lblk > 5_000_000 || r.bool() {
            o.extents = Some(true);
        }
    }
    let mut img = match r.below(4) {
        0 => super::journal::journaled(&mut r, &o).unwrap_or_else(|| gen_image(&mut r, &o)),
        _ => gen_image(&mut r, &o),
    };
    let mutated = r.chance(1, 4);
    if mutated {
        let (d, what) = mutate(&mut r, &img, 3);
        img.disk = d;
        ctx.note(format!("{} {}", img.cfg.describe(), what));
    } else {
        ctx.note(img.cfg.describe());
    }
    let m = &img.model;
    let all = paths_of(m);
    let bytes = serialize(&img.disk);
    if bytes.len() > 256 << 20 {
        ctx.count("image_too_large", 1);
        return;
    }
    let dir = Scratch::new("c21");
    let path = dir.0.join("image");
    std::fs::write(&path, &bytes).expect("write image");
    drop(bytes);
    let n = if ctx.thorough { 200 } else { 100 };
    let mut ops: Vec<Op> = (0..n).map(|_| rand_op(&mut r, m, &all, 300_000)).collect();
    let base = Ext4::load(Mon::new(img.disk.clone()).boxed());
    let want_load = base.as_ref().err().map(errk);
    if let (Some(e), false) = (&want_load, mutated) {
        ctx.fail("load-failed", format!("{:?}", e));
        return;
    }
    let mut outs = Vec::new();
    if let Ok(fs) = &base {
        if large {
            // Read around the limits, as well as at random positions.
            let mut more = Vec::new();
            for op in &ops {
                let Ok(md) = fs.metadata(op.path.as_slice()) else { continue };
                ctx.max("largest_file", md.len());
                if md.len() > 1 << 31 && more.len() < 120 {
                    for e in [31u32, 32, 33, 36, 40] {
                        let p = (1u64 << e) - r.below(5000);
                        more.push(Op { k: OpK::OpenAt(p, 1 + r.below(20_000) as u32), path: op.path.clone() });
                    }
                    for e in [31u32, 32, 33] {
                        // As much as that remains.
                        let p = md.len().saturating_sub(1u64 << e).saturating_sub(r.below(5000));
                        more.push(Op { k: OpK::OpenAt(p, 1 + r.below(20_000) as u32), path: op.path.clone() });
                    }
                    more.push(Op { k: OpK::OpenAt(md.len() - r.below(9000), 9000), path: op.path.clone() });
                }
            }
            // A seek counts the blocks before the position.
            let bs = img.cfg.bs as u64;
            more.retain(|op| matches!(op.k, OpK::OpenAt(p, _) if p / bs < 1 << 22 || (p / bs < 1 << 24 && r.chance(1, 8))));
            more.truncate(60);
            ops.extend(more);
        }
        let whole = |op: &Op| !matches!(op.k, OpK::OpenAt(..)) && huge_on_disk(fs, op);
        // Too large for a vector of this platform: says so.
        let mut too_large: Vec<Op> = Vec::new();
        for op in &ops {
            let Ok(md) = fs.metadata(op.path.as_slice()) else { continue };
            if matches!(op.k, OpK::Read | OpK::OpenAt(..)) && md.len() >= 1 << 32 && too_large.len() < 8 && fs.open(op.path.as_slice()).is_ok() {
                too_large.push(Op { k: OpK::Read, path: op.path.clone() });
            }
        }
        ops.retain(|op| !whole(op));
        for op in &ops {
            outs.push(exec(fs, op));
        }
        if !mutated {
            for op in too_large {
                ops.push(op);
                outs.push(Out::Err(ErrK::FileTooLarge));
                ctx.count("files_too_large_for_the_platform", 1);
            }
        }
        let mut dg = Digests::default();
        for (op, o) in ops.iter().zip(&outs) {
            ctx.nontrivial(mix(digest(op.show().as_bytes()) ^ mix(ctx.case)));
            if mutated || *o == Out::Err(ErrK::FileTooLarge) {
                continue;
            }
            if let Some(msg) = judge(m, op, o, &mut dg) {
                ctx.fail("wrong-result", msg);
            }
        }
    }
    if large {
        ctx.count("volumes_with_large_files", 1);
        ctx.max("largest_volume", img.disk.len);
    }
    ctx.sample(|| format!("{} operations {}", img.cfg.describe(), ops.len()));
    ctx.count("runs_with_32_bits", 1);
    compare_with(command(&path), "with 32 bits", "32-bit", &ops, &outs, &want_load, ctx);
    if large && r.bool() {
        // A byte vector that is much shorter than the volume: offsets above
        // 2^32 are errors, not offsets into it.
        let mut d = img.disk.clone();
        d.len = d.len.min(*r.pick(&[1u64 << 20, 4 << 20, 16 << 20]));
        let len = d.len.div_ceil(d.bs as u64);
        d.blocks.retain(|k, _| *k < len);
        let mut b = serialize(&d);
        b[7] = 0x80;
        std::fs::write(&path, &b).expect("write image");
        let fs = Ext4::load(Box::new(d.to_vec()));
        let want_load = fs.as_ref().err().map(errk);
        let mut outs = Vec::new();
        if let Ok(fs) = &fs {
            ops.retain(|op| !(op.k == OpK::Read && huge_on_disk(fs, op)));
            outs = ops.iter().map(|op| exec(fs, op)).collect();
        }
        ctx.count("short_vectors", 1);
        compare_with(command(&path), "with 32 bits, from a short vector", "32-bit-vector", &ops, &outs, &want_load, ctx);
    }
}

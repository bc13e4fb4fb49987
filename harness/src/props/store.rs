//! C13 (I/O errors), C14 (history independence), C15 (request range),
//! C20 (backends).

use super::hostile::mutate;
use super::read::{label_uuid, load, points, WF};
use crate::ctx::Ctx;
use crate::disk::Disk;
use crate::gen::*;
use crate::mkfs::*;
use crate::model::*;
use crate::mon::{Fault, Mon, MonErr};
use crate::ops::*;
use crate::rng::{mix, Rng};
use crate::Prop;
use ext4_view::{Ext4, Ext4Error, Ext4Read};
use std::collections::HashMap;
use std::error::Error;
use std::io::{Read, Seek, SeekFrom};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C13",
            level: "fault_enumeration",
            quick: 2200,
            thorough: 220000,
            cpu: 150,
            rule: "one case = one generated filesystem (some with a journal to replay); every read of loading, and of a sample of operations of every kind, fails in turn (once, for a stretch, or for good for an address range), the outcome must be the reader's own error or the correct result, and afterwards the same object must work; open files take random failures between reads and seeks and are checked against a cursor model. Non-trivial: a failure that fired inside an operation; distinct by (operation, path, read index, failure length)",
            assumptions: WF,
            run: c13,
        },
        Prop {
            id: "C14",
            level: "exploration",
            quick: 6000,
            thorough: 600000,
            cpu: 150,
            rule: "one case = one generated filesystem, intact or corrupted, and a random interleaving of operations over several clones, half-read files and half-iterated directories; each result compared with that of the same operation alone on a freshly loaded filesystem. Non-trivial: a comparison made after other operations had run; distinct by (operation, preceding operation)",
            assumptions: WF,
            run: c14,
        },
        Prop {
            id: "C15",
            level: "exploration",
            quick: 10000,
            thorough: 1000000,
            cpu: 150,
            rule: "one case = one generated filesystem whose storage holds exactly the declared volume, with data in the last blocks, all operations run; or a corrupted one, where every request is checked against the declared block range. Non-trivial: a request within one read-ahead of the end of the volume; distinct by (offset, length, volume)",
            assumptions: WF,
            run: c15,
        },
        Prop {
            id: "C20",
            level: "exploration",
            quick: 2400,
            thorough: 240000,
            cpu: 150,
            rule: "one case = one generated filesystem served by a byte vector, a std file, a path, a reader that splits its reads, a no_std build of the library (separate process) and truncated byte vectors; the same operations on each. Non-trivial: an operation compared across at least two backends; distinct by (operation, path, image)",
            assumptions: WF,
            run: c20,
        },
    ]
}

/// A filesystem with a bit of everything, small enough to repeat operations.
pub fn mixed_opts(r: &mut Rng) -> GenOpts {
    GenOpts {
        blocks: *r.pick(&[300u64, 500, 900, 2000]),
        huge: 0,
        nodes: (8, 30),
        htree: 40,
        bigdir: if r.chance(1, 4) { 120 } else { 0 },
        max_lblk: *r.pick(&[60, 500, 3000]),
        file_blocks: 14,
        bs: vec![1024, 1024, 1024, 2048, 2048, 4096, 4096, 8192],
        encrypt: r.chance(1, 12),
        ..Default::default()
    }
}

pub fn mixed(r: &mut Rng) -> Image {
    let o = mixed_opts(r);
    if r.chance(1, 4) {
        if let Some(i) = super::journal::journaled(r, &o) {
            return i;
        }
    }
    gen_image(r, &o)
}

pub fn paths_of(m: &Model) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = m.all_paths().into_iter().map(|x| x.0).collect();
    v.extend(m.dir_paths().into_iter().map(|x| x.0));
    v.sort();
    v.dedup();
    v
}

pub fn rand_op(r: &mut Rng, m: &Model, all: &[Vec<u8>], max_size: u64) -> Op {
    loop {
        let path = if r.chance(4, 5) { r.pick(all).clone() } else { gen_path(r, all) };
        let node = resolve(m, &path, true).any.first().and_then(|x| x.as_ref().ok().map(|x| m.get(x.0)));
        let size = node.filter(|n| n.is_reg()).map(|n| n.size).unwrap_or(0);
        let mut k = OPKINDS[r.usize(OPKINDS.len())].clone();
        // Favour what makes sense for the node.
        if r.chance(1, 2) {
            if let Some(n) = node {
                k = if n.is_dir() {
                    OpK::ListMeta
                } else if n.is_reg() {
                    if r.bool() { OpK::Open(r.next()) } else { OpK::Read }
                } else {
                    k
                };
            }
        }
        if matches!(k, OpK::Read | OpK::ReadStr | OpK::Open(_)) && size > max_size {
            if let Some(n) = node {
                let p = points(n, 1024);
                return Op { k: OpK::OpenAt(*r.pick(&p), r.range(1, 5000) as u32), path };
            }
        }
        return Op { k, path };
    }
}

// ------------------------------------------------------------------ C13

fn is_own(e: &ErrK, fired: &[u64]) -> bool {
    matches!(e, ErrK::Io(Some(i)) if fired.contains(i))
}

/// The entries of a listing that broke off must be true ones.
fn partial_ok(m: &Model, op: &Op, v: &[Ent], dg: &mut Digests, fired: &[u64]) -> bool {
    model_exec(m, op, dg).iter().any(|w| match w {
        Out::List(l) => v.iter().all(|e| {
            l.iter().any(|x| {
                x.name == e.name && x.ft == e.ft && x.path == e.path && (x.meta == e.meta || matches!(&e.meta, Some(Err(k)) if is_own(k, fired)))
            })
        }),
        _ => false,
    })
}

fn verdict(m: &Model, op: &Op, got: &Out, dg: &mut Digests, fired: &[u64]) -> Option<String> {
    match got {
        Out::Err(e) if is_own(e, fired) => None,
        Out::ErrAfter(v, e) if is_own(e, fired) => {
            if partial_ok(m, op, v, dg, fired) {
                None
            } else {
                Some(format!("{}: listing broke off after wrong entries: {}", op.show(), got.short()))
            }
        }
        // Metadata of single entries may fail.
        Out::List(v) if !fired.is_empty() && partial_ok(m, op, v, dg, fired) => {
            let n = model_exec(m, op, dg).iter().any(|w| matches!(w, Out::List(l) if l.len() == v.len()));
            (!n).then(|| format!("{}: listing is short: {}", op.show(), got.short()))
        }
        _ => judge(m, op, got, dg),
    }
}

fn c13(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let img = mixed(&mut r);
    ctx.note(img.cfg.describe());
    let Some((fs, mon)) = load(&img, ctx) else { return };
    let m = &img.model;
    let all = paths_of(m);
    let mut dg = Digests::default();
    let loads = mon.reads();
    ctx.sample(|| format!("{} reads to load={} paths={}", img.cfg.describe(), loads, all.len()));
    drop(fs);
    // Loading.
    let idx: Vec<u64> = if loads <= 120 { (0..loads).collect() } else { (0..120).map(|_| r.below(loads)).collect() };
    for i in idx {
        let mon = Mon::new(img.disk.clone());
        let n = if r.chance(1, 4) { 1 << 40 } else { r.range(1, 3) };
        mon.set_fault(Fault::Reads(i, i + n));
        let res = Ext4::load(mon.boxed());
        ctx.eval(1);
        ctx.nontrivial(mix(i ^ n << 20 ^ mix(img.disk.len ^ ctx.case)));
        let fired = mon.0.fired.borrow().clone();
        match res {
            Err(e) if is_own(&errk(&e), &fired) => {
                ctx.count("load_failures_surfaced", 1);
                text_ok(&e, ctx);
            }
            Err(e) => ctx.fail("load-error-kind", format!("load with read {} of {} failing: {:?} {}", i, loads, e, e)),
            Ok(fs) => {
                // It did not need the read: then all must be right.
                mon.set_fault(Fault::None);
                ctx.count("load_failures_not_needed", 1);
                for _ in 0..6 {
                    let op = rand_op(&mut r, m, &all, 200_000);
                    let got = exec(&fs, &op);
                    if let Some(msg) = judge(m, &op, &got, &mut dg) {
                        ctx.fail("after-load-fault", format!("load survived a failure of read {} but then {}", i, msg));
                    }
                }
            }
        }
    }
    // Operations.
    let nops = if ctx.thorough { 60 } else { 25 };
    for _ in 0..nops {
        if ctx.tired() {
            break;
        }
        let op = rand_op(&mut r, m, &all, 60_000);
        // Count the reads of a cold run.
        let Some((fs, mon)) = load(&img, ctx) else { return };
        let n0 = mon.reads();
        let got = exec(&fs, &op);
        if let Some(msg) = judge(m, &op, &got, &mut dg) {
            ctx.fail("wrong-result", msg);
            return;
        }
        let total = mon.reads() - n0;
        let step = (total / 24).max(1);
        let mut i = 0;
        while i < total {
            let Some((fs, mon)) = load(&img, ctx) else { return };
            let n0 = mon.reads();
            let len = match r.below(4) {
                0 => 1 << 40,
                1 => r.range(2, 5),
                _ => 1,
            };
            mon.set_fault(Fault::Reads(n0 + i, n0 + i + len));
            let got = exec(&fs, &op);
            let fired = mon.0.fired.borrow().clone();
            ctx.eval(1);
            if !fired.is_empty() {
                ctx.nontrivial(mix(digest(op.show().as_bytes()) ^ i << 32 ^ len ^ mix(ctx.case)));
                ctx.count("failures_injected", fired.len() as u64);
                if got.is_err() {
                    ctx.count("failures_surfaced", 1);
                } else {
                    ctx.count("failures_not_needed", 1);
                }
            }
            if let Some(msg) = verdict(m, &op, &got, &mut dg, &fired) {
                ctx.fail("fault-result", format!("read {} of {} failing (x{}): {}", i, total, len, msg));
            }
            // Recovery on the same object, same and other operations.
            mon.set_fault(Fault::None);
            let cl = fs.clone();
            for k in 0..4 {
                let op2 = if k == 1 { op.clone() } else { rand_op(&mut r, m, &all, 60_000) };
                let f = if k == 2 { &cl } else { &fs };
                let got = exec(f, &op2);
                ctx.eval(1);
                if let Some(msg) = judge(m, &op2, &got, &mut dg) {
                    ctx.fail("after-fault", format!("after read {} of {} of {} had failed: {}", i, total, op.show(), msg));
                }
            }
            i += 1 + r.below(step);
        }
    }
    // Bad address ranges, lasting.
    for _ in 0..12 {
        let (a, b) = if r.chance(2, 3) && !img.structs.is_empty() {
            let s = r.pick(&img.structs);
            (s.off, s.off + s.len as u64)
        } else {
            let blk = r.below(img.cfg.nblocks);
            (blk * img.cfg.bs as u64, (blk + r.range(1, 3)) * img.cfg.bs as u64)
        };
        let mon = Mon::new(img.disk.clone());
        mon.set_fault(Fault::Bytes(a, b, u64::MAX));
        let fs = match Ext4::load(mon.boxed()) {
            Ok(f) => f,
            Err(e) => {
                let fired = mon.0.fired.borrow().clone();
                ctx.eval(1);
                if !is_own(&errk(&e), &fired) {
                    ctx.fail("load-error-kind", format!("load with bytes {}..{} unreadable: {:?}", a, b, e));
                }
                continue;
            }
        };
        for _ in 0..25 {
            let op = rand_op(&mut r, m, &all, 60_000);
            let f0 = mon.fired();
            let got = exec(&fs, &op);
            let fired = mon.0.fired.borrow()[f0..].to_vec();
            ctx.eval(1);
            if !fired.is_empty() {
                ctx.nontrivial(mix(digest(op.show().as_bytes()) ^ mix(a)));
                ctx.count("bad_range_hits", 1);
            }
            if let Some(msg) = verdict(m, &op, &got, &mut dg, &fired) {
                ctx.fail("fault-result", format!("bytes {}..{} unreadable: {}", a, b, msg));
            }
        }
        mon.set_fault(Fault::None);
        for _ in 0..8 {
            let op = rand_op(&mut r, m, &all, 60_000);
            let got = exec(&fs, &op);
            if let Some(msg) = judge(m, &op, &got, &mut dg) {
                ctx.fail("after-fault", format!("after bytes {}..{} were unreadable: {}", a, b, msg));
            }
        }
    }
    c13_files(&img, &mut r, ctx);
    c13_dirs(&img, &mut r, ctx);
}

/// The error text and source are those of the reader; conversion keeps them.
fn text_ok(e: &Ext4Error, ctx: &mut Ctx) {
    if let Ext4Error::Io(inner) = e {
        ctx.eval(1);
        if !inner.to_string().starts_with("injected error") {
            ctx.fail("io-text", format!("text of the inner error is {:?}", inner.to_string()));
        }
        if !e.to_string().contains(&inner.to_string()) {
            ctx.count("io_text_without_inner", 1);
        }
    }
}

/// An open file with failures between and during reads and seeks.
fn c13_files(img: &Image, r: &mut Rng, ctx: &mut Ctx) {
    let m = &img.model;
    let bs = img.cfg.bs as u64;
    let files: Vec<(Vec<u8>, u32)> = m
        .all_paths()
        .into_iter()
        .filter(|(_, i)| m.get(*i).is_reg() && !m.get(*i).encrypted() && m.get(*i).size > 0 && m.get(*i).size / bs < 20_000)
        .filter(|(p, _)| resolve(m, p, true).any.iter().all(|x| x.is_ok()))
        .collect();
    if files.is_empty() {
        return;
    }
    for _ in 0..6 {
        let Some((fs, mon)) = load(img, ctx) else { return };
        let (p, ino) = r.pick(&files).clone();
        let n = m.get(ino);
        let mut f = match fs.open(p.as_slice()) {
            Ok(f) => f,
            Err(e) => {
                ctx.fail("open", format!("{} {}", esc(&p), e));
                return;
            }
        };
        let Kind::Reg(ct) = &n.kind else { return };
        let mut pos = 0u64;
        let mut hist: Vec<String> = Vec::new();
        let mut failed = false;
        for _ in 0..r.range(20, 60) {
            let faulty = r.chance(1, 3);
            if faulty {
                let a = mon.reads() + r.below(3);
                mon.set_fault(Fault::Reads(a, a + *r.pick(&[1u64, 1, 2, 5])));
            } else {
                mon.set_fault(Fault::None);
            }
            let f0 = mon.fired();
            let read = r.chance(2, 3);
            let via = r.bool();
            if read {
                let len = *r.pick(&[1usize, 7, 100, bs as usize, bs as usize + 1, 3 * bs as usize]);
                let mut buf = vec![0xc7; len];
                let res: Result<usize, Option<u64>> = if via {
                    f.read(&mut buf).map_err(|e| io_id(&e))
                } else {
                    f.read_bytes(&mut buf).map_err(|e| match errk(&e) {
                        ErrK::Io(i) => i,
                        _ => None,
                    })
                };
                let fired = mon.0.fired.borrow()[f0..].to_vec();
                hist.push(format!("read({})->{:?} fired {:?}", len, res, fired));
                ctx.eval(1);
                match res {
                    Ok(k) => {
                        let avail = n.size.saturating_sub(pos);
                        let mut want = vec![0; k];
                        ct.read(pos, &mut want);
                        if k as u64 > avail || (k == 0 && avail > 0) || want != buf[..k] {
                            ctx.fail("file-after-fault", format!("{} at {} of {}: wrong data or count; {:?}", esc(&p), pos, n.size, &hist[hist.len().saturating_sub(8)..]));
                            return;
                        }
                        pos += k as u64;
                        if failed {
                            ctx.count("reads_right_after_failures", 1);
                            failed = false;
                        }
                    }
                    Err(Some(i)) if fired.contains(&i) => {
                        failed = true;
                        ctx.nontrivial(mix(pos ^ ino as u64 ^ mix(len as u64)));
                    }
                    Err(x) => {
                        ctx.fail("file-fault-kind", format!("{} at {}: error {:?}, fired {:?}; {:?}", esc(&p), pos, x, fired, &hist[hist.len().saturating_sub(8)..]));
                        return;
                    }
                }
            } else {
                let to = match r.below(4) {
                    0 => 0,
                    1 => n.size + r.below(100),
                    _ => r.below(n.size + 1),
                };
                let res: Result<(), Option<u64>> = if via {
                    f.seek(SeekFrom::Start(to)).map(|_| ()).map_err(|e| io_id(&e))
                } else {
                    f.seek_to(to).map_err(|e| match errk(&e) {
                        ErrK::Io(i) => i,
                        _ => None,
                    })
                };
                let fired = mon.0.fired.borrow()[f0..].to_vec();
                hist.push(format!("seek({})->{:?} fired {:?}", to, res, fired));
                ctx.eval(1);
                match res {
                    Ok(()) => pos = to,
                    Err(Some(i)) if fired.contains(&i) => {
                        failed = true;
                        ctx.nontrivial(mix(pos ^ ino as u64 ^ mix(to ^ 77)));
                        // The place must be the old or the wanted one.
                        if f.position() == to {
                            pos = to;
                        }
                    }
                    Err(x) => {
                        ctx.fail("file-fault-kind", format!("seek {} in {}: error {:?}, fired {:?}", to, esc(&p), x, fired));
                        return;
                    }
                }
            }
            if f.position() != pos {
                ctx.fail("file-place", format!("{}: position {} expected {}; {:?}", esc(&p), f.position(), pos, &hist[hist.len().saturating_sub(8)..]));
                return;
            }
        }
    }
}

fn io_id(e: &std::io::Error) -> Option<u64> {
    let inner = e.get_ref()?;
    if let Some(x) = inner.downcast_ref::<MonErr>() {
        return Some(x.id);
    }
    // Accept it at any depth.
    let mut s: Option<&(dyn Error + 'static)> = Some(inner);
    while let Some(x) = s {
        if let Some(y) = x.downcast_ref::<MonErr>() {
            return Some(y.id);
        }
        if let Some(Ext4Error::Io(b)) = x.downcast_ref::<Ext4Error>() {
            return b.downcast_ref::<MonErr>().map(|m| m.id);
        }
        s = x.source();
    }
    None
}

/// A directory iterator interrupted by a failure part of the way.
fn c13_dirs(img: &Image, r: &mut Rng, ctx: &mut Ctx) {
    let m = &img.model;
    let mut dg = Digests::default();
    for (p, _) in m.dir_paths() {
        if ctx.tired() {
            return;
        }
        let Some((fs, mon)) = load(img, ctx) else { return };
        let op = Op { k: OpK::List, path: p.clone() };
        let want = model_exec(m, &op, &mut dg);
        let Some(Out::List(w)) = want.first() else { continue };
        let Ok(mut it) = fs.read_dir(p.as_slice()) else { continue };
        let stop = r.usize(w.len() + 1);
        let mut got = Vec::new();
        let mut err = None;
        let mut after = 0;
        loop {
            if got.len() == stop && err.is_none() {
                let a = mon.reads();
                mon.set_fault(Fault::Reads(a, a + 1));
            }
            match it.next() {
                None => break,
                Some(Ok(e)) => {
                    if err.is_some() {
                        after += 1;
                    }
                    got.push(e.file_name().as_ref().to_vec());
                }
                Some(Err(e)) => {
                    if err.is_some() {
                        after += 1;
                        break;
                    }
                    err = Some(errk(&e));
                }
            }
            if got.len() > w.len() {
                break;
            }
        }
        mon.set_fault(Fault::None);
        let fired = mon.0.fired.borrow().clone();
        ctx.eval(1);
        if !fired.is_empty() {
            ctx.nontrivial(mix(digest(&p) ^ stop as u64 ^ mix(3)));
        }
        let names: Vec<&Vec<u8>> = w.iter().map(|e| &e.name).collect();
        let ok = match &err {
            None => got.len() == w.len(),
            Some(e) => is_own(e, &fired) && after == 0,
        };
        if !ok || got.iter().any(|g| !names.contains(&g)) {
            ctx.fail(
                "dir-fault",
                format!("{}: {} entries of {}, error {:?}, {} items after the error, fired {:?}", esc(&p), got.len(), w.len(), err, after, fired),
            );
        }
        let got = exec(&fs, &op);
        if let Some(msg) = judge(m, &op, &got, &mut dg) {
            ctx.fail("after-fault", msg);
        }
    }
}

// ------------------------------------------------------------------ C14

enum H {
    File { f: ext4_view::File, path: Vec<u8>, pos: u64 },
    Dir { it: ext4_view::ReadDir, path: Vec<u8>, names: Vec<Vec<u8>> },
}

fn c14(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let img = if r.chance(1, 6) {
        // Block numbers of any size.
        let mut o = mixed_opts(&mut r);
        o.huge = 100;
        gen_image(&mut r, &o)
    } else {
        mixed(&mut r)
    };
    let m = &img.model;
    let all = paths_of(m);
    let (disk, what) = if r.chance(1, 3) { mutate(&mut r, &img, 3) } else { (img.disk.clone(), "intact".to_string()) };
    ctx.note(format!("{} {}", img.cfg.describe(), what));
    let fresh = || Ext4::load(Mon::new(disk.clone()).boxed());
    let fs = match fresh() {
        Ok(f) => f,
        Err(e) => {
            ctx.eval(1);
            match fresh() {
                Err(e2) if e.to_string() == e2.to_string() => {}
                _ => ctx.fail("load-differs", format!("{}", e)),
            }
            return;
        }
    };
    ctx.sample(|| format!("{} {} paths={}", img.cfg.describe(), what, all.len()));
    let mut clones = vec![fs];
    let mut hs: Vec<H> = Vec::new();
    let mut memo: HashMap<String, Out> = HashMap::new();
    let mut files: HashMap<Vec<u8>, Result<Vec<u8>, ErrK>> = HashMap::new();
    let mut prev = String::new();
    let steps = if ctx.thorough { 600 } else { 250 };
    let safe = |n: &MInode| n.size < 60_000;
    for _ in 0..steps {
        if ctx.tired() {
            break;
        }
        match r.below(12) {
            0 => {
                let c = r.pick(&clones).clone();
                clones.push(c);
                if clones.len() > 5 {
                    let i = r.usize(clones.len());
                    clones.swap_remove(i);
                }
            }
            1 | 2 => {
                let path = r.pick(&all).clone();
                let c = r.pick(&clones).clone();
                if let Some(n) = resolve(m, &path, true).any.first().and_then(|x| x.as_ref().ok()).map(|x| m.get(x.0)) {
                    if n.is_dir() {
                        if let Ok(it) = c.read_dir(path.as_slice()) {
                            hs.push(H::Dir { it, path, names: vec![] });
                        }
                    } else if n.is_reg() && safe(n) {
                        if let Ok(f) = c.open(path.as_slice()) {
                            if f.metadata().len() < 1 << 20 {
                                hs.push(H::File { f, path, pos: 0 });
                            }
                        }
                    }
                }
            }
            3..=6 if !hs.is_empty() => {
                let i = r.usize(hs.len());
                let mut done = false;
                ctx.eval(1);
                match &mut hs[i] {
                    H::File { f, path, pos } => {
                        // The reference: the whole file, read on a fresh load.
                        let whole = files.entry(path.clone()).or_insert_with(|| match fresh() {
                            Ok(x) => x.read(path.as_slice()).map_err(|e| errk(&e)),
                            Err(e) => Err(errk(&e)),
                        });
                        if r.chance(1, 4) {
                            let to = r.below(f.metadata().len() + 1);
                            if f.seek_to(to).is_ok() {
                                *pos = to;
                            }
                        }
                        let mut buf = vec![0; r.range(1, 5000) as usize];
                        match f.read_bytes(&mut buf) {
                            Ok(k) => {
                                if let Ok(w) = whole {
                                    let a = *pos as usize;
                                    if a + k > w.len() || w[a..a + k] != buf[..k] || (k == 0 && a < w.len()) {
                                        ctx.fail("history", format!("{} read at {} ({} bytes) differs from a fresh read, after {}", esc(path), pos, k, prev));
                                    }
                                }
                                *pos += k as u64;
                                done = k == 0;
                            }
                            Err(e) => {
                                if whole.is_ok() {
                                    ctx.fail("history", format!("{} read at {} fails ({}) but not on a fresh load, after {}", esc(path), pos, e, prev));
                                }
                                done = true;
                            }
                        }
                        ctx.nontrivial(mix(digest(path) ^ *pos ^ digest(prev.as_bytes())));
                    }
                    H::Dir { it, path, names } => {
                        for _ in 0..r.range(1, 9) {
                            match it.next() {
                                Some(Ok(e)) => names.push(e.file_name().as_ref().to_vec()),
                                Some(Err(e)) => {
                                    names.push(format!("error {:?}", coarse_err(errk(&e))).into_bytes());
                                    done = true;
                                    break;
                                }
                                None => {
                                    done = true;
                                    break;
                                }
                            }
                        }
                        if done {
                            let op = Op { k: OpK::List, path: path.clone() };
                            let w = memo.entry(key_of(&op)).or_insert_with(|| fresh_exec(&fresh, &op));
                            let mut ws: Vec<Vec<u8>> = match &*w {
                                Out::List(v) => v.iter().map(|e| e.name.clone()).collect(),
                                Out::ErrAfter(v, e) => {
                                    v.iter().map(|e| e.name.clone()).chain([format!("error {:?}", coarse_err(e.clone())).into_bytes()]).collect()
                                }
                                Out::Err(e) => vec![format!("error {:?}", coarse_err(e.clone())).into_bytes()],
                                _ => vec![],
                            };
                            ws.sort();
                            names.sort();
                            if ws != *names {
                                ctx.fail("history", format!("{} interleaved listing gave {} items, fresh {}, after {}", esc(path), names.len(), ws.len(), prev));
                            }
                            ctx.nontrivial(mix(digest(path) ^ digest(prev.as_bytes())));
                        }
                    }
                }
                if done {
                    hs.swap_remove(i);
                }
            }
            _ => {
                let op = rand_op(&mut r, m, &all, 100_000);
                let c = r.pick(&clones).clone();
                if huge_on_disk(&c, &op) {
                    continue;
                }
                let got = exec(&c, &op);
                let key = key_of(&op);
                let want = memo.entry(key.clone()).or_insert_with(|| fresh_exec(&fresh, &op));
                ctx.eval(1);
                ctx.nontrivial(mix(digest(key.as_bytes()) ^ digest(prev.as_bytes())));
                if coarse(want) != coarse(&got) {
                    ctx.fail("history", format!("{} gave {}, fresh {}, after {}", op.show(), got.short(), want.short(), prev));
                }
                prev = key;
            }
        }
    }
    ctx.count("histories", 1);
}

/// A key for an operation (what is shown of a long path is not enough).
fn key_of(op: &Op) -> String {
    let key = op.show();
    if op.path.len() > 200 { format!("{}{:x}", key, digest(&op.path)) } else { key }
}

fn fresh_exec(fresh: &dyn Fn() -> Result<Ext4, Ext4Error>, op: &Op) -> Out {
    match fresh() {
        Ok(f) => exec(&f, op),
        Err(e) => Out::Err(errk(&e)),
    }
}

/// A corrupted size can make a read legitimately enormous.
pub fn huge_on_disk(fs: &Ext4, op: &Op) -> bool {
    matches!(op.k, OpK::Read | OpK::ReadStr | OpK::Open(_) | OpK::OpenAt(..))
        && fs.metadata(op.path.as_slice()).map(|m| m.len() > 8 << 20).unwrap_or(false)
}

// ------------------------------------------------------------------ C15

fn c15(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let mut o = mixed_opts(&mut r);
    if r.chance(1, 5) {
        o.huge = 100;
        o.bigdir = 0;
    }
    o.blocks = *r.pick(&[150u64, 250, 400, 900]);
    o.bs.extend([16384, 65536]);
    let img = match r.below(4) {
        0 => match super::journal::journaled(&mut r, &o) {
            Some(i) => i,
            None => gen_image(&mut r, &o),
        },
        _ => gen_image(&mut r, &o),
    };
    let m = &img.model;
    let all = paths_of(m);
    if img.cfg.nblocks > 1 << 20 || r.chance(1, 2) {
        ctx.note(img.cfg.describe());
        let mon = Mon::new(img.disk.clone());
        mon.start_log();
        let fs = match Ext4::load(mon.boxed()) {
            Ok(f) => f,
            Err(e) => {
                ctx.fail("load-failed", format!("{:?}; out-of-range requests {:?}", e, mon.0.oob.borrow()));
                return;
            }
        };
        let mut dg = Digests::default();
        ctx.sample(|| format!("{} volume bytes={}", img.cfg.describe(), img.disk.len));
        for i in 0..120.max(all.len().min(200)) {
            if ctx.tired() {
                break;
            }
            let op = if i < all.len() && r.bool() {
                let n = resolve(m, &all[i], true).any.first().and_then(|x| x.as_ref().ok()).map(|x| m.get(x.0).clone());
                match n {
                    Some(n) if n.is_reg() => Op { k: OpK::OpenAt(n.size.saturating_sub(r.range(1, 5000)), 5000), path: all[i].clone() },
                    _ => Op { k: OpK::ListMeta, path: all[i].clone() },
                }
            } else {
                rand_op(&mut r, m, &all, 2 << 20)
            };
            if matches!(op.k, OpK::OpenAt(..)) {
                if let Some(Ok(x)) = resolve(m, &op.path, true).any.first() {
                    if m.get(x.0).size / img.cfg.bs as u64 > 300_000 {
                        continue;
                    }
                }
            }
            let got = exec(&fs, &op);
            ctx.eval(1);
            if let Some(msg) = judge(m, &op, &got, &mut dg) {
                ctx.fail("wrong-result", msg);
            }
            if !mon.0.oob.borrow().is_empty() {
                ctx.fail("out-of-range", format!("{} requested {:?} of a volume of {} bytes", op.show(), mon.0.oob.borrow(), img.disk.len));
                return;
            }
        }
        let log = mon.take_log();
        ctx.count("requests_checked", log.len() as u64);
        for (a, l) in log {
            if a.saturating_add(l as u64) + (32 << 10) > img.disk.len {
                ctx.nontrivial(mix(a ^ (l as u64) << 48 ^ mix(ctx.case)));
                ctx.count("requests_near_the_end", 1);
            }
        }
        return;
    }
    // Arbitrary image: more bytes exist than the superblock declares.
    let (mut disk, what) = mutate(&mut r, &img, 4);
    if r.chance(1, 2) {
        // Declare fewer blocks.
        let mut sb = vec![0; 1024];
        disk.read(1024, &mut sb);
        let n = img.cfg.nblocks - r.below(img.cfg.nblocks / 2).min(1 << 30);
        w32(&mut sb, 4, n as u32);
        if img.cfg.is64 {
            w32(&mut sb, 0x150, (n >> 32) as u32);
        }
        if img.cfg.csum {
            sb_csum(&mut sb);
        }
        disk.write(1024, &sb);
    }
    ctx.note(format!("{} {}", img.cfg.describe(), what));
    let mut sb = vec![0; 1024];
    if !disk.read(1024, &mut sb) {
        return;
    }
    let Some(range) = declared(&sb) else {
        ctx.eval(1);
        return;
    };
    let mut range = vec![range];
    if !img.jblocks.is_empty() {
        // The journal may hold the superblock as it was before the damage.
        let mut sb = vec![0; 1024];
        img.disk.read(1024, &mut sb);
        range.extend(declared(&sb));
    }
    disk.len = disk.len * 2 + (1 << 20);
    let mon = Mon::new(disk);
    mon.start_log();
    let Ok(fs) = Ext4::load(mon.boxed()) else {
        ctx.eval(1);
        check_range(&mon, &range, "load", ctx);
        return;
    };
    check_range(&mon, &range, "load", ctx);
    for _ in 0..80 {
        if ctx.tired() {
            break;
        }
        let op = rand_op(&mut r, m, &all, 100_000);
        if huge_on_disk(&fs, &op) {
            continue;
        }
        let _ = exec(&fs, &op);
        ctx.eval(1);
        check_range(&mon, &range, &op.show(), ctx);
        if ctx.failed > 0 {
            return;
        }
    }
}

struct Declared {
    end: u128,
    gdt: (u128, u128),
}

fn declared(sb: &[u8]) -> Option<Declared> {
    let lg = r32(sb, 0x18);
    if lg > 6 {
        return None;
    }
    let bs = 1024u128 << lg;
    let is64 = r32(sb, 0x60) & INC_64BIT != 0;
    // (As elsewhere, the upper half counts whatever the features.)
    let n = r32(sb, 4) as u128 | (r32(sb, 0x150) as u128) << 32;
    let fdb = r32(sb, 0x14) as u128;
    let bpg = r32(sb, 0x20) as u128;
    if bpg == 0 {
        return None;
    }
    let ds = if is64 { r16(sb, 0xfe).max(32) as u128 } else { 32 };
    let groups = n.div_ceil(bpg);
    let per = (bs / ds).max(1);
    let fix = if bs == 1024 { 2 } else { 1 };
    let len = (groups.div_ceil(per) * bs).max(groups * ds);
    Some(Declared { end: n * bs, gdt: ((fdb + 1).min(fix) * bs, (fdb + 1).max(fix) * bs + len) })
}

fn check_range(mon: &Mon, ds: &[Declared], what: &str, ctx: &mut Ctx) {
    for (a, l) in mon.take_log() {
        let e = a as u128 + l as u128;
        let d = &ds[0];
        let ok = e <= 4096 || ds.iter().any(|d| e <= d.end || (a as u128 >= d.gdt.0 && e <= d.gdt.1));
        ctx.count("requests_checked", 1);
        if e + (32 << 10) > d.end {
            ctx.nontrivial(mix(a ^ (l as u64) << 48 ^ mix(ctx.case ^ 5)));
        }
        if !ok {
            ctx.fail("out-of-range", format!("{} requested {}+{} but the superblock declares {} bytes", what, a, l, d.end));
            return;
        }
    }
}

// ------------------------------------------------------------------ C20

/// Splits each request into pieces in a random order, through a bounce buffer.
struct Pieces {
    disk: Disk,
    r: Rng,
}

impl Ext4Read for Pieces {
    fn read(&mut self, start: u64, dst: &mut [u8]) -> Result<(), Box<dyn Error + Send + Sync + 'static>> {
        let mut cuts = vec![0, dst.len()];
        for _ in 0..self.r.below(4) {
            cuts.push(self.r.usize(dst.len() + 1));
        }
        cuts.sort_unstable();
        let mut parts: Vec<(usize, usize)> = cuts.windows(2).map(|w| (w[0], w[1])).collect();
        self.r.shuffle(&mut parts);
        dst.fill(0xee);
        for (a, b) in parts {
            let mut t = vec![0; b - a];
            if !self.disk.read(start + a as u64, &mut t) {
                return Err("short".into());
            }
            dst[a..b].copy_from_slice(&t);
        }
        Ok(())
    }
}

pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        let d = std::env::temp_dir().join(format!("ext4v-{}-{}", tag, std::process::id()));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// A volume that does not fit in memory, as a file with holes.
fn sparse(ctx: &mut Ctx, r: &mut Rng, img: &Image, mutated: bool) {
    use std::os::unix::fs::FileExt;
    let dir = Scratch::new("c20");
    let path = dir.0.join("image");
    let f = std::fs::File::create(&path).expect("create image");
    let mut written = f.set_len(img.disk.len).is_ok();
    for b in img.disk.blocks.keys() {
        let mut d = img.disk.get(*b);
        let off = b * img.disk.bs as u64;
        d.truncate(img.disk.len.saturating_sub(off).min(d.len() as u64) as usize);
        written = written && f.write_all_at(&d, off).is_ok();
    }
    ctx.eval(1);
    if !written {
        // Larger than files can be here.
        ctx.count("too_large_for_any_backend", 1);
        return;
    }
    let m = &img.model;
    let all = paths_of(m);
    let ops: Vec<Op> = (0..60).map(|_| rand_op(r, m, &all, 300_000)).collect();
    ctx.sample(|| format!("{} file with holes of {} bytes", img.cfg.describe(), img.disk.len));
    let base = Ext4::load(Mon::new(img.disk.clone()).boxed());
    let backends = [("std file", Ext4::load(Box::new(std::fs::File::open(&path).expect("open image")))), ("path", Ext4::load_from_path(&path))];
    let mut dg = Digests::default();
    let load_out = |x: &Result<Ext4, Ext4Error>| x.as_ref().err().map(errk).map(coarse_err);
    for (name, b) in &backends {
        ctx.eval(1);
        if load_out(b) != load_out(&base) {
            ctx.fail("backend-load", format!("{}: load gives {:?}, monitor {:?}", name, load_out(b), load_out(&base)));
            continue;
        }
        let (Ok(fs), Ok(base)) = (b, &base) else { continue };
        for op in &ops {
            if huge_on_disk(base, op) {
                continue;
            }
            let (got, want) = (exec(fs, op), exec(base, op));
            ctx.eval(1);
            ctx.nontrivial(mix(digest(op.show().as_bytes()) ^ mix(ctx.case)));
            if coarse(&got) != coarse(&want) {
                ctx.fail("backend", format!("{}: {} gives {}, monitor {}", name, op.show(), got.short(), want.short()));
            }
            if let (false, Some(msg)) = (mutated, judge(m, op, &got, &mut dg)) {
                ctx.fail("wrong-result", format!("{}: {}", name, msg));
            }
        }
        if !mutated {
            label_uuid(fs, m, ctx);
        }
    }
    ctx.count("volumes_as_files_with_holes", 1);
    ctx.max("bytes_of_a_file_with_holes", img.disk.len);
}

fn c20(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let mut o = mixed_opts(&mut r);
    o.blocks = *r.pick(&[150u64, 300, 600, 1200]);
    if r.chance(1, 20) {
        o.huge = 100;
        // As large as files can be.
        o.huge_bytes = r.range(36, 43);
        o.nodes = (8, 20);
        o.blocks = 1200;
    }
    let mut img = match r.below(4) {
        0 => super::journal::journaled(&mut r, &o).unwrap_or_else(|| gen_image(&mut r, &o)),
        _ => gen_image(&mut r, &o),
    };
    // Now and then a corrupt one: the backends must still agree.
    let mutated = r.chance(1, 4);
    if mutated {
        let (d, what) = mutate(&mut r, &img, 3);
        img.disk = d;
        ctx.note(format!("{} {}", img.cfg.describe(), what));
    } else {
        ctx.note(img.cfg.describe());
    }
    let m = &img.model;
    let all = paths_of(m);
    if img.disk.len > 48 << 20 {
        sparse(ctx, &mut r, &img, mutated);
        return;
    }
    let bytes = img.disk.to_vec();
    let dir = Scratch::new("c20");
    let path = dir.0.join("image");
    std::fs::write(&path, &bytes).expect("write image");
    let mut ops: Vec<Op> = Vec::new();
    for _ in 0..if ctx.thorough { 120 } else { 60 } {
        ops.push(rand_op(&mut r, m, &all, 300_000));
    }
    ctx.sample(|| format!("{} bytes={} first op {}", img.cfg.describe(), bytes.len(), ops[0].show()));
    let base = Ext4::load(Box::new(bytes.clone()));
    let load_out = |x: &Result<Ext4, Ext4Error>| x.as_ref().err().map(errk);
    let want_load = load_out(&base);
    if let (Err(e), false) = (&base, mutated) {
        ctx.fail("load-failed", format!("{:?}", e));
        return;
    }
    let mut outs: Vec<Out> = Vec::new();
    if let Ok(fs) = &base {
        ops.retain(|op| !huge_on_disk(fs, op));
        for op in &ops {
            outs.push(exec(fs, op));
        }
        if !mutated {
            let mut dg = Digests::default();
            for (op, o) in ops.iter().zip(&outs) {
                if let Some(msg) = judge(m, op, o, &mut dg) {
                    ctx.fail("wrong-result", msg);
                }
            }
        }
    }
    let backends: Vec<(&str, Result<Ext4, Ext4Error>)> = vec![
        ("std file", match std::fs::File::open(&path) {
            Ok(f) => Ext4::load(Box::new(f)),
            Err(e) => panic!("mkfs: cannot open the scratch image: {}", e),
        }),
        ("path", Ext4::load_from_path(&path)),
        ("split reads", Ext4::load(Box::new(Pieces { disk: img.disk.clone(), r: Rng::new(r.next()) }))),
        ("monitor", Ext4::load(Mon::new(img.disk.clone()).boxed())),
    ];
    let coarse_load = |e: Option<ErrK>| e.map(coarse_err);
    for (name, b) in &backends {
        ctx.eval(1);
        if coarse_load(load_out(b)) != coarse_load(want_load.clone()) {
            ctx.fail("backend-load", format!("{}: load gives {:?}, byte vector {:?}", name, load_out(b), want_load));
            continue;
        }
        let Ok(fs) = b else { continue };
        for (op, w) in ops.iter().zip(&outs) {
            let got = exec(fs, op);
            ctx.eval(1);
            ctx.nontrivial(mix(digest(op.show().as_bytes()) ^ mix(ctx.case)));
            if coarse(&got) != coarse(w) {
                ctx.fail("backend", format!("{}: {} gives {}, byte vector {}", name, op.show(), got.short(), w.short()));
            }
        }
        if !mutated {
            label_uuid(fs, m, ctx);
        }
    }
    // Backends and filesystems that have nothing to do with each other.
    if let Err(e) = Ext4::load_from_path(dir.0.join("missing")) {
        ctx.eval(1);
        if !matches!(e, Ext4Error::Io(_)) {
            ctx.fail("load_from_path", format!("missing file gives {:?}", e));
        }
    } else {
        ctx.fail("load_from_path", "missing file loads");
    }
    // The build without std.
    super::nostd::compare(&path, &ops, &outs, &want_load, ctx);
    if mutated {
        return;
    }
    // Truncated volumes.
    let mut dg = Digests::default();
    let bs = img.cfg.bs as usize;
    for t in 0..if ctx.thorough { 30 } else { 10 } {
        let cut = match (t, r.below(5)) {
            (0, _) => *r.pick(&[0usize, 1, 1023, 1024, 1025, 2047, 2048, 2049, 4096]),
            (_, 0) => bytes.len() - 1 - r.usize(bs),
            (_, 1) => {
                let s = r.pick(&img.structs);
                s.off as usize + r.usize(s.len as usize + 1)
            }
            _ => r.usize(bytes.len()),
        };
        let short = bytes[..cut.min(bytes.len())].to_vec();
        let via_file = r.chance(1, 3);
        let fs = if via_file {
            std::fs::write(&path, &short).expect("write image");
            Ext4::load_from_path(&path)
        } else {
            Ext4::load(Box::new(short))
        };
        ctx.eval(1);
        let fs = match fs {
            Ok(f) => f,
            Err(Ext4Error::Io(_)) => {
                ctx.count("truncated_loads_refused", 1);
                continue;
            }
            Err(e) => {
                ctx.fail("truncated-load", format!("volume cut to {} of {}: {:?}", cut, bytes.len(), e));
                continue;
            }
        };
        for op in ops.iter().take(40) {
            let got = exec(&fs, op);
            ctx.eval(1);
            let bad = match &got {
                Out::Err(ErrK::Io(_)) => {
                    ctx.count("truncated_io_errors", 1);
                    continue;
                }
                Out::ErrAfter(v, ErrK::Io(_)) => {
                    let v2: Vec<Ent> = v.iter().filter(|e| !matches!(e.meta, Some(Err(ErrK::Io(_))))).cloned().collect();
                    !partial_ok(m, op, &v2, &mut dg, &[])
                }
                Out::List(v) if v.iter().any(|e| matches!(e.meta, Some(Err(ErrK::Io(_))))) => {
                    let v2: Vec<Ent> = v.iter().filter(|e| !matches!(e.meta, Some(Err(ErrK::Io(_))))).cloned().collect();
                    !partial_ok(m, op, &v2, &mut dg, &[])
                }
                _ => judge(m, op, &got, &mut dg).is_some(),
            };
            if bad {
                ctx.fail("truncated", format!("volume cut to {} of {}: {} gives {}", cut, bytes.len(), op.show(), got.short()));
            }
        }
    }
}

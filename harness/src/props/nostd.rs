//! The same operations in a process that uses the library without std.

use crate::ctx::Ctx;
use crate::ops::*;
use std::io::Write;
use std::path::Path;
use std::process::{Command, Stdio};

/// Run `ops` on the image in the build without std and compare with `outs`.
pub fn compare(image: &Path, ops: &[Op], outs: &[Out], want_load: &Option<ErrK>, ctx: &mut Ctx) {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let mut c = Command::new(format!("{}/target/nostd/release/nostd", root));
    c.arg(image);
    ctx.count("no_std_runs", 1);
    compare_with(c, "without std", "no-std", ops, outs, want_load, ctx);
}

/// Run `ops` in another process, which prints the digests of the results, and
/// compare with `outs`.
pub fn compare_with(mut c: Command, how: &str, sig: &str, ops: &[Op], outs: &[Out], want_load: &Option<ErrK>, ctx: &mut Ctx) {
    let mut ch = match c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn() {
        Ok(ch) => ch,
        Err(e) => panic!("mkfs: cannot run {:?}: {}", c, e),
    };
    let text: String = ops.iter().map(|o| format_op(o) + "\n").collect();
    let mut sin = ch.stdin.take().unwrap();
    let t = std::thread::spawn(move || {
        let _ = sin.write_all(text.as_bytes());
    });
    let out = ch.wait_with_output().expect("wait for nostd");
    let _ = t.join();
    ctx.eval(1);
    let s = String::from_utf8_lossy(&out.stdout).into_owned();
    let mut lines = s.lines();
    let load = lines.next().unwrap_or("");
    let want = match want_load {
        None => "load ok".to_string(),
        Some(e) => format!("load {:?}", coarse_err(e.clone())),
    };
    if load != want {
        ctx.fail(&format!("{}-load", sig), format!("{}: {:?}, otherwise {:?} {}", how, load, want, String::from_utf8_lossy(&out.stderr)));
        return;
    }
    if want_load.is_some() {
        return;
    }
    for (op, w) in ops.iter().zip(outs) {
        let w = coarse(w);
        let d = format!("{:016x}", digest(format!("{:?}", w).as_bytes()));
        let Some(l) = lines.next() else {
            ctx.fail(&format!("{}-died", sig), format!("{}: process ended at {}: {} {}", how, op.show(), out.status, String::from_utf8_lossy(&out.stderr)));
            return;
        };
        ctx.eval(1);
        if l == "end" || !l.starts_with(&d) {
            ctx.fail(&format!("{}-differs", sig), format!("{} {} gives {}, otherwise {}", op.show(), how, l.get(17..).unwrap_or(l), w.short()));
        }
    }
    if lines.next() != Some("end") {
        ctx.fail(&format!("{}-died", sig), format!("{}: no orderly end: {} {}", how, out.status, String::from_utf8_lossy(&out.stderr)));
    }
}

//! Whole-tree comparison of a loaded filesystem with the model.

use crate::ctx::Ctx;
use crate::model::*;
use crate::ops::*;
use ext4_view::Ext4;

pub struct Limits {
    /// Largest file to read in full.
    pub full: u64,
}

/// Every directory, entry, inode and target. Reports through `ctx.fail`.
pub fn verify_tree(fs: &Ext4, m: &Model, ctx: &mut Ctx, lim: &Limits) -> u64 {
    let mut dg = Digests::default();
    let mut n = 0;
    let mut ops: Vec<Op> = Vec::new();
    for (p, ino) in m.dir_paths() {
        let _ = ino;
        ops.push(Op { k: OpK::ListMeta, path: p.clone() });
        ops.push(Op { k: OpK::Meta, path: p });
    }
    for (p, ino) in m.all_paths() {
        let i = m.get(ino);
        ops.push(Op { k: OpK::SymMeta, path: p.clone() });
        match &i.kind {
            Kind::Reg(_) if i.size <= lim.full => {
                ops.push(Op { k: OpK::Read, path: p.clone() });
            }
            Kind::Link(_) => {
                ops.push(Op { k: OpK::ReadLink, path: p.clone() });
                ops.push(Op { k: OpK::Canon, path: p.clone() });
            }
            _ => {}
        }
    }
    for op in &ops {
        let got = exec(fs, op);
        n += 1;
        if let Some(msg) = judge(m, op, &got, &mut dg) {
            ctx.fail("wrong-result", msg);
        }
    }
    if AsRef::<[u8]>::as_ref(&fs.uuid().as_bytes()[..]) != m.uuid {
        ctx.fail("wrong-uuid", format!("{:?}", fs.uuid()));
    }
    if fs.label().as_bytes() != &m.label {
        ctx.fail("wrong-label", format!("{:?}", fs.label()));
    }
    n
}

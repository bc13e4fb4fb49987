use crate::Prop;

mod formats;
mod hostile;
mod journal;
mod names;
mod nostd;
mod read;
mod store;
mod wasm;

pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(read::props());
    v.extend(names::props());
    v.extend(hostile::props());
    v.extend(journal::props());
    v.extend(store::props());
    v.extend(formats::props());
    v.extend(wasm::props());
    v.sort_by_key(|p| p.id);
    v
}

pub fn torn_image(seed: u64) -> crate::mkfs::Image {
    (0..50).find_map(|i| journal::torn_image(seed * 1000 + i)).expect("no history")
}

pub use hostile::{damaged_image, hostile_image};

pub fn journal_image(seed: u64, valid: bool) -> crate::mkfs::Image {
    let mut r = crate::rng::Rng::new(seed);
    for _ in 0..20 {
        let mut o = journal::small_opts(&mut r);
        o.huge = 0;
        let mut jo = journal::jopts(&mut r);
        if valid {
            // e2fsck wants at least 1024 blocks.
            o.blocks = 2600;
            o.bs = vec![1024, 1024, 4096];
            jo.jlen = (1026, 1060);
        }
        if let Some(h) = journal::history(&mut r, &o, &jo) {
            return h.image(&mut r, !valid);
        }
    }
    panic!("no history")
}

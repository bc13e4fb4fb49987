//! Runs operations with the library on a platform of 32 bits (wasm32, run by
//! run.mjs), for comparison with the native build (see harness/src/props/wasm.rs).
#![allow(dead_code)]

#[path = "../../harness/src/disk.rs"]
mod disk;
#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../harness/src/ops.rs"]
mod ops;
#[path = "../../harness/src/rng.rs"]
mod rng;

mod mon {
    #[derive(Debug)]
    pub struct MonErr {
        pub id: u64,
    }
    impl std::fmt::Display for MonErr {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{}", self.id)
        }
    }
    impl std::error::Error for MonErr {}
}

use disk::{Block, Disk};
use ext4_view::{Ext4, Ext4Read};
use std::error::Error;

#[link(wasm_import_module = "env")]
extern "C" {
    /// Print a line.
    fn out(p: *const u8, n: usize);
}

fn say(s: &str) {
    unsafe { out(s.as_ptr(), s.len()) }
}

struct Dev(Disk);

impl Ext4Read for Dev {
    fn read(&mut self, start: u64, dst: &mut [u8]) -> Result<(), Box<dyn Error + Send + Sync + 'static>> {
        if self.0.read(start, dst) {
            Ok(())
        } else {
            Err(Box::new(mon::MonErr { id: 0 }))
        }
    }
}

/// A buffer for the image or the operations.
#[no_mangle]
pub extern "C" fn buffer(n: usize) -> *mut u8 {
    Box::leak(vec![0u8; n].into_boxed_slice()).as_mut_ptr()
}

fn le(b: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(b[o..o + 8].try_into().unwrap())
}

fn parse(b: &[u8]) -> Disk {
    let bs = (le(b, 0) & u64::MAX >> 1) as usize;
    let mut d = Disk::new(bs, 0);
    d.len = le(b, 8);
    let mut o = 16;
    while o < b.len() {
        let blk = le(b, o);
        if b[o + 8] == 0 {
            d.blocks.insert(blk, Block::Bytes(b[o + 9..o + 9 + bs].into()));
            o += 9 + bs;
        } else {
            d.put_pat(blk, le(b, o + 9), le(b, o + 17) as u32);
            o += 25;
        }
    }
    d
}

/// # Safety
/// Both buffers come from [`buffer`].
#[no_mangle]
pub unsafe extern "C" fn run(image: *const u8, n: usize, text: *const u8, m: usize) {
    std::panic::set_hook(Box::new(|i| say(&format!("panic: {}", i.to_string().replace('\n', " ")))));
    let disk = parse(std::slice::from_raw_parts(image, n));
    let s = std::str::from_utf8(std::slice::from_raw_parts(text, m)).expect("operations");
    let vector = *image.add(7) == 0x80;
    let reader: Box<dyn Ext4Read> = if vector { Box::new(disk.to_vec()) } else { Box::new(Dev(disk)) };
    let fs = match Ext4::load(reader) {
        Ok(fs) => fs,
        Err(e) => {
            say(&format!("load {:?}", ops::coarse_err(ops::errk(&e))));
            return;
        }
    };
    say("load ok");
    for l in s.lines() {
        let op = ops::parse_op(l).expect("operation");
        let o = ops::coarse(&ops::exec(&fs, &op));
        say(&format!("{:016x} {}", ops::digest(format!("{:?}", o).as_bytes()), o.short().replace('\n', " ")));
    }
    say("end");
}

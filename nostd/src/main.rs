//! Runs operations with the library built without the std feature, for
//! comparison with the monitored build (see harness/src/props/nostd.rs).
#![allow(dead_code)]

#[path = "../../harness/src/disk.rs"]
mod disk;
#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../harness/src/ops.rs"]
mod ops;
#[path = "../../harness/src/rng.rs"]
mod rng;

mod mon {
    /// The reader here is a byte vector, which has its own error.
    #[derive(Debug)]
    pub struct MonErr {
        pub id: u64,
    }
    impl std::fmt::Display for MonErr {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{}", self.id)
        }
    }
    impl std::error::Error for MonErr {}
}

use ext4_view::Ext4;
use std::io::Read;

fn main() {
    let path = std::env::args_os().nth(1).expect("image");
    let bytes = std::fs::read(path).expect("read image");
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).expect("operations");
    let fs = match Ext4::load(Box::new(bytes)) {
        Ok(fs) => fs,
        Err(e) => {
            println!("load {:?}", ops::coarse_err(ops::errk(&e)));
            return;
        }
    };
    println!("load ok");
    for l in s.lines() {
        let op = ops::parse_op(l).expect("operation");
        let o = ops::coarse(&ops::exec(&fs, &op));
        println!("{:016x} {}", ops::digest(format!("{:?}", o).as_bytes()), o.short().replace('\n', " "));
    }
    println!("end");
}

// Searches for names whose directory hash (default seed) is one of the two
// values that ext4 folds into one, because the larger marks the end of a
// hash tree. Writes the table used by harness/src/eofnames.rs.
//
//   rustc -O -o /tmp/eofnames tools/eofnames.rs && /tmp/eofnames 40
//
// Each name is PREFIX ("n" repeated) followed by 12 hexadecimal digits.
#![allow(dead_code)]
#[path = "../harness/src/sums.rs"]
mod sums;
use sums::*;

fn state(prefix: usize, alg: Alg) -> [u32; 4] {
    let mut buf = [0x6745_2301, 0xefcd_ab89, 0x98ba_dcfe, 0x1032_5476];
    let chunk = if alg == Alg::Tea { 4 } else { 8 };
    let name = vec![b'n'; prefix + 12];
    let mut p = &name[..];
    while p.len() > chunk * 4 {
        let i = str2buf(p, true, chunk);
        if alg == Alg::Tea { tea(&mut buf, &i) } else { half_md4(&mut buf, &i) }
        p = &p[chunk * 4..];
    }
    buf
}

fn main() {
    let want: usize = std::env::args().nth(1).unwrap().parse().unwrap();
    for alg in [Alg::HalfMd4, Alg::Tea] {
        for prefix in [1usize, 20, 116, 243] {
            // The digits must lie in the last chunk.
            let chunk = if alg == Alg::Tea { 16 } else { 32 };
            let len = prefix + 12;
            let last = if len % chunk == 0 { chunk } else { len % chunk };
            if last < 12 {
                panic!("prefix {prefix} {chunk}");
            }
            let st = state(prefix, alg);
            let found = std::sync::Mutex::new(Vec::<u64>::new());
            std::thread::scope(|s| {
                for t in 0..8u64 {
                    let found = &found;
                    s.spawn(move || {
                        let mut n = t << 40;
                        let mut tail = vec![b'n'; last];
                        loop {
                            n += 1;
                            if n & 0xffff == 0 && found.lock().unwrap().len() >= want {
                                return;
                            }
                            let mut x = n;
                            for k in (0..12).rev() {
                                tail[last - 12 + k] = b"0123456789abcdef"[(x & 15) as usize];
                                x >>= 4;
                            }
                            let mut b = st;
                            // Not `str2buf`: the name's length pads the last words.
                            let pad = (last as u32) | (last as u32) << 8;
                            let pad = pad | pad << 16;
                            let num = chunk / 4;
                            let mut w = [pad; 8];
                            for (i, c) in tail.chunks(4).enumerate() {
                                let mut v = pad;
                                for y in c {
                                    v = (v << 8).wrapping_add(*y as u32);
                                }
                                w[i] = v;
                            }
                            let h = if alg == Alg::Tea {
                                tea(&mut b, &w[..num]);
                                b[0]
                            } else {
                                half_md4(&mut b, &w[..num]);
                                b[1]
                            };
                            if h >= 0xffff_fffc {
                                let name = format!("{}{:012x}", "n".repeat(prefix), n);
                                assert_eq!(dirhash(name.as_bytes(), alg, false, &[0; 4]), 0xffff_fffc);
                                found.lock().unwrap().push(n);
                            }
                        }
                    });
                }
            });
            let v = found.into_inner().unwrap();
            println!("    (Alg::{alg:?}, {prefix}, &{v:x?}),");
        }
    }
}

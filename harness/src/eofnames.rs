//! Names whose directory hash under the default seed would be the end marker
//! of a hash tree (found by tools/eofnames.rs). ext4 gives them the hash
//! before it, which some of these names have anyway.

use crate::sums::Alg;

pub const DEFAULT_SEED: [u32; 4] = [0x6745_2301, 0xefcd_ab89, 0x98ba_dcfe, 0x1032_5476];

/// (algorithm, number of leading `n`s, trailing 12 digits)
const TABLE: &[(Alg, usize, &[u64])] = &[
    (
        Alg::HalfMd4,
        1,
        &[
            0x2836457,
            0x7000436811a,
            0x60007148df3,
            0x4000a775ac6,
            0x5000bf20558,
            0x70012988d9e,
            0x5001cac3e14,
            0x1002cf26201,
            0x48956a77,
            0x58e81465,
            0x6477a19c,
            0x6007a916f10,
            0x5007f9ca592,
            0x200a2fe1e54,
        ],
    ),
    (
        Alg::HalfMd4,
        20,
        &[
            0x30007ec24b4,
            0x30017d83645,
            0x2001afa18d7,
            0x60027e27240,
            0x40033913883,
            0x70033edee9b,
            0x100380c9faf,
            0x1003d08c633,
            0x700410dcd33,
            0x20040661fa4,
            0x50044a43720,
            0x6005b2add45,
            0x2005db1e3b8,
            0x10068602c66,
        ],
    ),
    (
        Alg::HalfMd4,
        116,
        &[
            0x20001aa943f,
            0x600025922c5,
            0x300055e9a4a,
            0x500171d05dc,
            0x7001f04adaf,
            0x200290e5f02,
            0x400317786f1,
            0x70035f6f7fb,
            0x41a81e35,
            0x600498cc95e,
            0x3004c6769f3,
            0x300562dc6b0,
            0x56fb09cb,
            0x700576611b7,
        ],
    ),
    (
        Alg::HalfMd4,
        243,
        &[
            0x600071ccf48,
            0x600127bf4cb,
            0x5001553c7cf,
            0x1d05f6f8,
            0x20027d35081,
            0x70027309fc8,
            0x2002996a596,
            0x20047440e55,
            0x200475a9181,
            0x100554f39bc,
            0x30054fd1ab8,
            0x5708f5cb,
            0x590b0d83,
            0x40058ee76a8,
        ],
    ),
    (
        Alg::Tea,
        1,
        &[
            0x200012ff672,
            0x10011106d64,
            0x300190221c7,
            0x6001d473dc7,
            0x25b200c1,
            0x5002816afc8,
            0x2ab9173f,
            0x2002ce48a7f,
            0x7002e3b0cbe,
            0x4004a2f9c1b,
            0x559617a0,
            0x20058ea3650,
            0x4005fb74ce5,
            0x1006ea222f2,
        ],
    ),
    (Alg::Tea, 20, &[0x30005f43a48]),
    (Alg::Tea, 116, &[0x2000227d3da]),
    (Alg::Tea, 243, &[0x4000117d5fb]),
];

pub fn is_default(seed: &[u32; 4]) -> bool {
    *seed == [0; 4] || *seed == DEFAULT_SEED
}

/// The names of at most `max` bytes.
pub fn names(alg: Alg, max: usize) -> Vec<Vec<u8>> {
    let mut out = Vec::new();
    for (a, prefix, tails) in TABLE {
        if *a == alg && prefix + 12 <= max {
            for t in *tails {
                out.push(format!("{}{:012x}", "n".repeat(*prefix), t).into_bytes());
            }
        }
    }
    out
}

#[cfg(test)]
mod tests {
    #[test]
    fn hashes() {
        for alg in [crate::sums::Alg::HalfMd4, crate::sums::Alg::Tea] {
            for n in super::names(alg, 255) {
                assert_eq!(crate::sums::dirhash(&n, alg, false, &[0; 4]), 0xffff_fffc);
            }
        }
    }
}

//! SHAKE256, written from FIPS 202 (independent of the `sha3` crate).
const RC: [u64; 24] = [
    0x0000000000000001, 0x0000000000008082, 0x800000000000808A, 0x8000000080008000, 0x000000000000808B,
    0x0000000080000001, 0x8000000080008081, 0x8000000000008009, 0x000000000000008A, 0x0000000000000088,
    0x0000000080008009, 0x000000008000000A, 0x000000008000808B, 0x800000000000008B, 0x8000000000008089,
    0x8000000000008003, 0x8000000000008002, 0x8000000000000080, 0x000000000000800A, 0x800000008000000A,
    0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
];
const ROT: [[u32; 5]; 5] = [
    // ROT[x][y]
    [0, 36, 3, 41, 18],
    [1, 44, 10, 45, 2],
    [62, 6, 43, 15, 61],
    [28, 55, 25, 21, 56],
    [27, 20, 39, 8, 14],
];

fn f1600(a: &mut [[u64; 5]; 5]) {
    for rc in RC {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x][y] ^= d;
            }
        }
        let mut b = [[0u64; 5]; 5];
        for x in 0..5 {
            for y in 0..5 {
                b[y][(2 * x + 3 * y) % 5] = a[x][y].rotate_left(ROT[x][y]);
            }
        }
        for x in 0..5 {
            for y in 0..5 {
                a[x][y] = b[x][y] ^ (!b[(x + 1) % 5][y] & b[(x + 2) % 5][y]);
            }
        }
        a[0][0] ^= rc;
    }
}

const RATE: usize = 136;

pub fn shake256(parts: &[&[u8]], out: &mut [u8]) {
    let mut st = [[0u64; 5]; 5];
    let mut pos = 0usize;
    let xor = |st: &mut [[u64; 5]; 5], pos: usize, b: u8| {
        let lane = pos / 8;
        st[lane % 5][lane / 5] ^= (b as u64) << (8 * (pos % 8));
    };
    for p in parts {
        for &b in *p {
            xor(&mut st, pos, b);
            pos += 1;
            if pos == RATE {
                f1600(&mut st);
                pos = 0;
            }
        }
    }
    xor(&mut st, pos, 0x1f);
    xor(&mut st, RATE - 1, 0x80);
    f1600(&mut st);
    pos = 0;
    for o in out.iter_mut() {
        if pos == RATE {
            f1600(&mut st);
            pos = 0;
        }
        let lane = pos / 8;
        *o = (st[lane % 5][lane / 5] >> (8 * (pos % 8))) as u8;
        pos += 1;
    }
}

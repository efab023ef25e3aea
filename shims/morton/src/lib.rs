//! Stand-in for `morton` (apendleton/morton, branch modernize): 2-D Z-order codes.
//! `x` occupies the even bits and `y` the odd ones.

fn spread(v: u16) -> u32 {
    let mut v = u32::from(v);
    v = (v | (v << 8)) & 0x00ff_00ff;
    v = (v | (v << 4)) & 0x0f0f_0f0f;
    v = (v | (v << 2)) & 0x3333_3333;
    (v | (v << 1)) & 0x5555_5555
}

fn squash(v: u32) -> u16 {
    let mut v = v & 0x5555_5555;
    v = (v | (v >> 1)) & 0x3333_3333;
    v = (v | (v >> 2)) & 0x0f0f_0f0f;
    v = (v | (v >> 4)) & 0x00ff_00ff;
    ((v | (v >> 8)) & 0xffff) as u16
}

pub fn interleave_morton(x: u16, y: u16) -> u32 {
    spread(x) | (spread(y) << 1)
}

pub fn deinterleave_morton(z: u32) -> (u16, u16) {
    (squash(z), squash(z >> 1))
}

#[cfg(test)]
mod test {
    use super::*;

    #[test]
    fn agrees_with_the_definition() {
        for x in (0..=65535u16).step_by(251).chain(0..40).chain(65500..=65535) {
            for y in (0..=65535u16).step_by(257).chain(0..40) {
                let mut want = 0u32;
                for b in 0..16 {
                    want |= (((x >> b) & 1) as u32) << (2 * b);
                    want |= (((y >> b) & 1) as u32) << (2 * b + 1);
                }
                assert_eq!(interleave_morton(x, y), want);
                assert_eq!(deinterleave_morton(want), (x, y));
            }
        }
    }
}

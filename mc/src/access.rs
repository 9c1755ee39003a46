//! Which memory the next machine instruction touches: address, most bytes, whether it may write.  Where the exact extent is not
//! worth the trouble it is given too large.
const REG: [usize; 16] = [libc::REG_RAX as usize, libc::REG_RCX as usize, libc::REG_RDX as usize, libc::REG_RBX as usize, libc::REG_RSP as usize, libc::REG_RBP as usize, libc::REG_RSI as usize, libc::REG_RDI as usize,
    libc::REG_R8 as usize, libc::REG_R9 as usize, libc::REG_R10 as usize, libc::REG_R11 as usize, libc::REG_R12 as usize, libc::REG_R13 as usize, libc::REG_R14 as usize, libc::REG_R15 as usize];
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Access { pub at: usize, pub len: usize, pub write: bool }
/// Up to two (string moves have two); `None` in the first place: nothing but registers, the own stack (push, call) or thread locals
/// by segment.
pub unsafe fn next(g: &[i64; 23], masks: Option<&[u64; 8]>) -> [Option<Access>; 2] {
    unsafe {
        let mut p = g[libc::REG_RIP as usize] as usize as *const u8;
        let (mut opsize, mut seg, mut lock, mut addr32, mut rep) = (false, false, false, false, 0u8);
        loop {
            match *p { 0x66 => opsize = true, 0xf2 | 0xf3 => rep = *p, 0xf0 => lock = true, 0x64 | 0x65 => seg = true, 0x67 => addr32 = true, 0x2e | 0x36 | 0x3e | 0x26 => {} _ => break }
            p = p.add(1);
        }
        let mut rex = 0u8;
        if *p & 0xf0 == 0x40 { rex = *p; p = p.add(1); }
        // map 0: one byte, 1: 0f, 2: 0f38, 3: 0f3a; pp: 66 = 1, f3 = 2, f2 = 3
        let (map, mut pp, vl, evex);
        let (mut wide, mut mask) = (rex & 8 != 0, 0u8);
        let op;
        match *p {
            0xc5 => { let b = *p.add(1); rex = if b & 0x80 == 0 { 4 } else { 0 }; map = 1; pp = b & 3; vl = if b & 4 != 0 { 32 } else { 16 }; evex = false; op = *p.add(2); p = p.add(3); }
            0xc4 => { let (b, c) = (*p.add(1), *p.add(2)); rex = (!b >> 5 & 7) | (c >> 4 & 8); map = b & 31; pp = c & 3; vl = if c & 4 != 0 { 32usize } else { 16 }; wide = c & 0x80 != 0; evex = false; op = *p.add(3); p = p.add(4); }
            0x62 => { let (b, c) = (*p.add(1), *p.add(2)); rex = !b >> 5 & 7; map = b & 7; pp = c & 3; let d = *p.add(3); vl = 16usize << (d >> 5 & 3).min(2); wide = c & 0x80 != 0; mask = d & 7; evex = true; op = *p.add(4); p = p.add(5); }
            _ => {
                evex = false; vl = 0;
                pp = if opsize { 1 } else { 0 };
                if rep == 0xf3 { pp = 2 } else if rep == 0xf2 { pp = 3 }
                if *p == 0x0f {
                    if *p.add(1) == 0x38 { map = 2; op = *p.add(2); p = p.add(3); }
                    else if *p.add(1) == 0x3a { map = 3; op = *p.add(2); p = p.add(3); }
                    else { map = 1; op = *p.add(1); p = p.add(2); }
                } else { map = 0; op = *p; p = p.add(1); }
            }
        }
        let reg = |i: usize| g[REG[i]] as usize;
        if map == 0 {
            match op {
                0xa4 | 0xa5 => return [Some(Access { at: reg(6), len: 8, write: false }), Some(Access { at: reg(7), len: 8, write: true })],
                0xaa | 0xab => return [Some(Access { at: reg(7), len: 8, write: true }), None],
                0xa6 | 0xa7 => return [Some(Access { at: reg(6), len: 8, write: false }), Some(Access { at: reg(7), len: 8, write: false })],
                0xac | 0xad => return [Some(Access { at: reg(6), len: 8, write: false }), None],
                0xae | 0xaf => return [Some(Access { at: reg(7), len: 8, write: false }), None],
                0xa0..=0xa3 => return [if seg { None } else { Some(Access { at: (p as *const usize).read_unaligned(), len: 8, write: op >= 0xa2 }) }, None],
                _ => {}
            }
        }
        let modrm = match map {
            0 => match op {
                0x00..=0x3f => op & 7 < 4,
                0x63 | 0x69 | 0x6b | 0x80..=0x8f | 0xc0 | 0xc1 | 0xc6 | 0xc7 | 0xd0..=0xd3 | 0xd8..=0xdf | 0xf6 | 0xf7 | 0xfe | 0xff => true,
                _ => false,
            },
            1 => !matches!(op, 0x05..=0x09 | 0x0b | 0x30..=0x37 | 0x77 | 0x80..=0x8f | 0xa0..=0xa2 | 0xa8..=0xaa | 0xc8..=0xcf | 0x0e | 0x1e..=0x1f | 0x18 | 0x0d),
            _ => true,
        };
        if !modrm { return [None, None] }
        let m = *p; p = p.add(1);
        let (md, ext, rm) = (m >> 6, m >> 3 & 7, m & 7);
        if md == 3 || seg { return [None, None] }
        // lea, and indirect calls and jumps read only
        if map == 0 && op == 0x8d { return [None, None] }
        let mut at;
        let mut vsib = false;
        let mut tail = 0usize;
        if rm == 4 {
            let s = *p; p = p.add(1);
            let (scale, idx, base) = (s >> 6, (s >> 3 & 7) as usize | ((rex & 2) as usize) << 2, (s & 7) as usize | ((rex & 1) as usize) << 3);
            vsib = map == 2 && matches!(op, 0x90..=0x93 | 0xa0..=0xa3) && (evex || vl > 0);
            at = if s & 7 == 5 && md == 0 { let d = (p as *const i32).read_unaligned(); p = p.add(4); d as isize as usize } else { reg(base) };
            if idx != 4 && !vsib { at = at.wrapping_add(reg(idx) << scale); }
        } else if rm == 5 && md == 0 {
            let d = (p as *const i32).read_unaligned(); p = p.add(4);
            at = (p as usize).wrapping_add(d as isize as usize);
            // relative to the end of the instruction, after any immediate operand
            tail = 8;
        } else { at = reg(rm as usize | ((rex & 1) as usize) << 3); }
        let v = if vl > 0 { vl } else { 16 };
        let scalar = match pp { 2 => 4, 3 => 8, _ => v };
        let gpr = if wide { 8 } else { 4 };
        let mut len = match map {
            0 => match op {
                0xd8..=0xdf => 16,
                0xff => 8,
                0x63 => 4,
                _ if op & 1 == 0 => if matches!(op, 0x8c | 0x8e) { 2 } else { 1 },
                _ => if wide { 8 } else if opsize { 2 } else { 4 },
            },
            1 => match op {
                0x10 | 0x11 | 0x2e | 0x2f | 0x51..=0x53 | 0x58..=0x5f | 0xc2 => scalar,
                0x2a | 0x2c | 0x2d => if pp == 2 || pp == 3 { 8 } else { v },
                0x12 | 0x13 | 0x16 | 0x17 => if pp < 2 { 8 } else { v },
                0x6e => gpr,
                0x7e => if pp == 2 { 8 } else { gpr },
                0xd6 => 8,
                0xb6 | 0xbe | 0xb0 | 0xc0 | 0x90..=0x9f => 1,
                0xb7 | 0xbf | 0xc4 => 2,
                0x40..=0x4f | 0xaf | 0xb1 | 0xc1 | 0xc3 | 0xa3 | 0xab | 0xb3 | 0xbb | 0xba | 0xa4 | 0xa5 | 0xac | 0xad | 0xbc | 0xbd | 0xb8 => if vl == 0 { 8 } else { v },
                _ => v,
            },
            2 => match op {
                0x20 | 0x30 | 0x23 | 0x33 | 0x25 | 0x35 | 0x13 => v / 2,
                0x21 | 0x31 | 0x24 | 0x34 => v / 4,
                0x22 | 0x32 => v / 8,
                0x18 | 0x58 => 4,
                0x19 | 0x59 => 8,
                0x78 => 1,
                0x79 => 2,
                0x1a | 0x5a => if wide && evex { 32 } else { 16 },
                0x1b | 0x5b => 32,
                _ => v,
            },
            _ => match op {
                0x14 | 0x20 => 1,
                0x15 => 2,
                0x17 | 0x21 => 4,
                0x16 | 0x22 => gpr,
                0x18 | 0x19 | 0x38 | 0x39 => 16,
                0x1a | 0x1b | 0x3a | 0x3b => 32,
                0x1d => v / 2,
                _ => v,
            },
        };
        // moves of whole vectors: the displacement counts in vectors, and the mask tells what is touched
        let moves = evex && map == 1 && matches!(op, 0x10 | 0x11 | 0x28 | 0x29 | 0x6f | 0x7f | 0xe7 | 0x2b);
        match md {
            1 => {
                let d = *(p as *const i8) as isize;
                if moves { at = at.wrapping_add((d * len as isize) as usize); } else if evex {
                    // scaled by the size of the operand, which is one of 1, 2, .. 64
                    let (lo, hi) = (d.min(d * 64), d.max(d * 64));
                    at = at.wrapping_add(lo as usize);
                    len += (hi - lo) as usize;
                } else { at = at.wrapping_add(d as usize); }
            }
            2 => at = at.wrapping_add((p as *const i32).read_unaligned() as isize as usize),
            _ => {}
        }
        if let (true, Some(k)) = (moves && mask != 0, masks) {
            let es = if matches!(op, 0x6f | 0x7f) && pp == 3 { if wide { 2 } else { 1 } } else if wide { 8 } else { 4 };
            let n = len / es;
            let k = if n >= 64 { k[mask as usize] } else { k[mask as usize] & ((1 << n) - 1) };
            if k == 0 { return [None, None] }
            at = at.wrapping_add(k.trailing_zeros() as usize * es);
            len = (64 - k.leading_zeros() - k.trailing_zeros()) as usize * es;
        }
        if vsib { at = 0; len = usize::MAX; }
        if addr32 { at &= 0xffff_ffff; }
        let write = lock || match map {
            0 => match op {
                0x00..=0x37 => op & 7 < 2,
                0x86..=0x89 | 0x8f | 0xc0 | 0xc1 | 0xc6 | 0xc7 | 0xd0..=0xd3 | 0xd9 | 0xdb | 0xdd | 0xdf => true,
                0x80..=0x83 => ext != 7,
                0xf6 | 0xf7 => ext == 2 || ext == 3,
                0xfe | 0xff => ext < 2,
                _ => false,
            },
            1 => match op {
                0x11 | 0x13 | 0x17 | 0x29 | 0x2b | 0x7f | 0xd6 | 0xe7 | 0xb0 | 0xb1 | 0xc0 | 0xc1 | 0xc7 | 0xab | 0xb3 | 0xbb | 0xa4 | 0xa5 | 0xac | 0xad | 0xc3 | 0x90..=0x9f => true,
                0x7e => pp != 2,
                0xba => ext > 4,
                0xae => ext != 2,
                _ => false,
            },
            2 => matches!(op, 0xf0 | 0xf1) && vl == 0 && pp != 3 && op == 0xf1 || vl > 0 && matches!(op, 0x2e | 0x2f | 0x8e | 0x63 | 0x8a | 0x8b | 0xa0..=0xa3) || evex && pp == 2 && matches!(op, 0x10..=0x15 | 0x20..=0x25 | 0x30..=0x35),
            3 => matches!(op, 0x14..=0x17 | 0x39 | 0x3b | 0x19 | 0x1b | 0x1d),
            _ => false,
        };
        [Some(Access { at, len: len.saturating_add(tail), write }), None]
    }
}

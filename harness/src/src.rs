//! A source of choices decoded from a byte string. proptest generates and
//! shrinks the byte string; an exhausted source answers 0 to every question,
//! and answer 0 is always the simplest alternative.

pub struct Src<'a> {
    d: &'a [u8],
    p: usize,
}

impl<'a> Src<'a> {
    pub fn new(d: &'a [u8]) -> Self {
        Src { d, p: 0 }
    }

    pub fn byte(&mut self) -> u8 {
        let b = self.d.get(self.p).copied().unwrap_or(0);
        self.p += 1;
        b
    }

    /// All that is left, undecoded.
    pub fn rest(&mut self) -> Vec<u8> {
        let v = self.d.get(self.p..).unwrap_or(&[]).to_vec();
        self.p = self.d.len();
        v
    }

    pub fn left(&self) -> usize {
        self.d.len().saturating_sub(self.p)
    }

    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        if n <= 64 {
            (usize::from(self.byte()) * n) >> 8
        } else {
            let x = usize::from(self.byte()) << 8 | usize::from(self.byte());
            (x * n) >> 16
        }
    }

    /// True with probability num/den; false when exhausted.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }

    pub fn bool(&mut self) -> bool {
        self.byte() & 1 == 1
    }

    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.below(xs.len())]
    }

    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        let mut x = if total <= 256 {
            (usize::from(self.byte()) * total) >> 8
        } else {
            self.below(total)
        };
        for (i, n) in w.iter().enumerate() {
            if x < *n {
                return i;
            }
            x -= n;
        }
        0
    }

    pub fn u64(&mut self) -> u64 {
        let mut x = 0;
        for _ in 0..8 {
            x = x << 8 | u64::from(self.byte());
        }
        x
    }

    pub fn u128(&mut self) -> u128 {
        u128::from(self.u64()) << 64 | u128::from(self.u64())
    }

    /// An integer in [lo, hi], biased towards boundaries.
    pub fn int(&mut self, lo: i128, hi: i128) -> i128 {
        const EDGES: &[i128] = &[
            0, 1, -1, 10, 23, 24, 31, 32, 63, 64, 127, 128, 250, 251, 255, 256, 32767, 32768, 65535,
            65536, 16383, 16384, 2097151, 2147483647, 2147483648, 4294967295, 4294967296,
            9007199254740991, 9007199254740993, 9223372036854775807, 9223372036854775808,
            18446744073709551615, 18446744073709551616, -24, -25, -128, -129, -32768, -32769,
            -2147483648, -2147483649, -9223372036854775808, -9223372036854775809,
        ];
        let x = match self.weighted(&[6, 6, 2, 1, 1]) {
            0 => i128::from(self.byte()),
            1 => *self.pick(EDGES),
            2 => self.u128() as i128,
            3 => hi,
            _ => lo,
        };
        if x < lo || x > hi {
            match hi.checked_sub(lo).and_then(|w| w.checked_add(1)) {
                Some(w) => lo + x.rem_euclid(w),
                None => x,
            }
        } else {
            x
        }
    }

    pub fn uint128(&mut self) -> u128 {
        match self.weighted(&[3, 3, 1, 1]) {
            0 => u128::from(self.byte()),
            1 => self.int(0, i128::MAX) as u128,
            2 => self.u128(),
            _ => u128::MAX,
        }
    }

    pub fn f64(&mut self) -> f64 {
        const EDGES: &[f64] = &[
            0.0, 1.0, -0.0, 0.5, -1.5, 1e300, -1e-300, f64::MAX, f64::MIN, f64::MIN_POSITIVE,
            f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.1, 16777217.0, 9007199254740993.0, 65504.0,
            5e-324, 1e16, 3.4028234663852886e38,
        ];
        match self.weighted(&[3, 6, 2]) {
            0 => f64::from(self.byte()),
            1 => *self.pick(EDGES),
            _ => f64::from_bits(self.u64()),
        }
    }

    pub fn f32(&mut self) -> f32 {
        const EDGES: &[f32] = &[
            0.0, 1.0, -0.0, 0.5, -1.5, 1e30, -1e-30, f32::MAX, f32::MIN, f32::MIN_POSITIVE,
            f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 0.1, 16777216.0, 65504.0, 1e-45,
        ];
        match self.weighted(&[3, 6, 2]) {
            0 => f32::from(self.byte()),
            1 => *self.pick(EDGES),
            _ => f32::from_bits(self.u64() as u32),
        }
    }

    pub fn char(&mut self) -> char {
        const EDGES: &[char] = &[
            'a', 'Z', '0', ' ', '"', '\\', '\n', '\u{0}', '\u{7f}', '\u{80}', 'é', '\u{301}', '\u{2028}',
            '日', '\u{ffff}', '\u{10000}', '😀', '\u{10ffff}', '\u{feff}', '/', '\'', '#', '=', '[', '.',
        ];
        match self.weighted(&[4, 4, 1]) {
            0 => (b'a' + (self.byte() % 26)) as char,
            1 => *self.pick(EDGES),
            _ => char::from_u32((self.u64() % 0x110000) as u32).unwrap_or('\u{fffd}'),
        }
    }

    pub fn len(&mut self, max: usize) -> usize {
        match self.weighted(&[10, 30, 4, 1]) {
            0 => 0,
            1 => 1 + self.below(max.clamp(1, 4)),
            2 => self.below(max + 1),
            _ => max,
        }
    }

    pub fn string(&mut self, max: usize) -> String {
        const EDGES: &[&str] = &[
            "", "type", "value", "null", "true", "0", "-1", "1.5", "Alpha", "D0", "content", "h7",
            "$serde_json::private::Number", "$__toml_private_datetime", "\u{0}", "NaN", "a\"b\\c\n\r\t",
            "日本語", "e\u{301}", "\u{feff}bom", "\u{10ffff}",
        ];
        match self.weighted(&[4, 4, 4, 1]) {
            0 => {
                let n = self.len(max);
                (0..n).map(|_| (b'a' + (self.byte() % 26)) as char).collect()
            }
            1 => (*self.pick(EDGES)).to_owned(),
            2 => {
                let n = self.len(max);
                (0..n).map(|_| self.char()).collect()
            }
            _ => {
                let n = *self.pick(&[1, 23, 24, 127, 128, 255, 256, 300, 1000, 5000]);
                let c = self.char();
                std::iter::repeat(c).take(n).collect()
            }
        }
    }

    pub fn bytes(&mut self, max: usize) -> Vec<u8> {
        match self.weighted(&[8, 1]) {
            0 => {
                let n = self.len(max);
                (0..n).map(|_| self.byte()).collect()
            }
            _ => {
                let n = *self.pick(&[1, 23, 24, 127, 128, 255, 256, 300, 1000, 5000]);
                vec![self.byte(); n]
            }
        }
    }
}

//! Value types that differ in size, alignment and ownership, each carrying a number.

pub trait Val: Send + Sync + 'static {
    fn make(n: u32) -> Self;
    /// The number it was made with, as far as the type can hold it.
    fn num(&self) -> u32;
    fn fits(n: u32) -> u32 {
        n
    }
}

impl Val for u64 {
    fn make(n: u32) -> Self {
        (n as u64) << 20 | 0xabcde
    }
    fn num(&self) -> u32 {
        if self & 0xfffff == 0xabcde {
            (self >> 20) as u32
        } else {
            u32::MAX
        }
    }
}

impl Val for u8 {
    fn make(n: u32) -> Self {
        n as u8
    }
    fn num(&self) -> u32 {
        *self as u32
    }
    fn fits(n: u32) -> u32 {
        n & 0xff
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Zst;

impl Val for Zst {
    fn make(_: u32) -> Self {
        Zst
    }
    fn num(&self) -> u32 {
        0
    }
    fn fits(_: u32) -> u32 {
        0
    }
}

impl Val for String {
    fn make(n: u32) -> Self {
        format!("value {n}")
    }
    fn num(&self) -> u32 {
        self.strip_prefix("value ")
            .and_then(|s| s.parse().ok())
            .unwrap_or(u32::MAX)
    }
}

impl Val for Box<u32> {
    fn make(n: u32) -> Self {
        Box::new(n)
    }
    fn num(&self) -> u32 {
        **self
    }
}

#[repr(align(64))]
pub struct Wide(pub [u32; 40]);

impl Val for Wide {
    fn make(n: u32) -> Self {
        let mut a = [0; 40];
        for (i, x) in a.iter_mut().enumerate() {
            *x = n.wrapping_mul(i as u32 + 1);
        }
        Wide(a)
    }
    fn num(&self) -> u32 {
        let n = self.0[0];
        let ok = (self as *const _ as usize) % 64 == 0
            && (0..40).all(|i| self.0[i] == n.wrapping_mul(i as u32 + 1));
        if ok {
            n
        } else {
            u32::MAX
        }
    }
}

#[repr(packed)]
pub struct Odd(pub u8, pub u16);

impl Val for Odd {
    fn make(n: u32) -> Self {
        Odd((n >> 16) as u8, n as u16)
    }
    fn num(&self) -> u32 {
        (self.0 as u32) << 16 | self.1 as u32
    }
    fn fits(n: u32) -> u32 {
        n & 0xff_ffff
    }
}

/// Larger than a page's half, on a boundary of its own.
#[derive(Clone)]
#[repr(align(256))]
pub struct Huge([u32; 640]);

impl Val for Huge {
    fn make(n: u32) -> Self {
        let mut a = [n; 640];
        a[639] = !n;
        Huge(a)
    }
    fn num(&self) -> u32 {
        let n = self.0[0];
        let ok = (self as *const _ as usize) % 256 == 0
            && self.0[..639].iter().step_by(29).all(|x| *x == n)
            && self.0[639] == !n;
        if ok {
            n
        } else {
            u32::MAX
        }
    }
}

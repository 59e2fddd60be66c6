//! Bit packing.
#[derive(Default)]
pub struct Msb {
    pub out: Vec<u8>,
    cur: u32,
    n: u32,
}
impl Msb {
    pub fn put(&mut self, v: u32, bits: u32) {
        for i in (0..bits).rev() {
            self.cur = self.cur << 1 | (v >> i & 1);
            self.n += 1;
            if self.n == 8 {
                self.out.push(self.cur as u8);
                self.cur = 0;
                self.n = 0;
            }
        }
    }
    pub fn align(&mut self) {
        while self.n != 0 {
            self.put(0, 1)
        }
    }
}
#[derive(Default)]
pub struct Lsb {
    pub out: Vec<u8>,
    cur: u64,
    n: u32,
}
impl Lsb {
    pub fn put(&mut self, v: u32, bits: u32) {
        self.cur |= (v as u64) << self.n;
        self.n += bits;
        while self.n >= 8 {
            self.out.push(self.cur as u8);
            self.cur >>= 8;
            self.n -= 8;
        }
    }
    pub fn align(&mut self) {
        if self.n > 0 {
            self.out.push(self.cur as u8);
            self.cur = 0;
            self.n = 0;
        }
    }
}

id="a02-par-drive-coords-u16"; prop="A02"; features=["rayon"]; deps='rayon = "1.7"'
edits=[("src/buffer_par.rs","""    type Item = (u32, u32, &'a mut P);

    fn drive_unindexed<C>(self, consumer: C) -> C::Result
    where
        C: UnindexedConsumer<Self::Item>,
    {
        self.pixels
            .enumerate()
            .map(|(i, p)| {
                (
                    (i % self.width as usize) as u32,
                    (i / self.width as usize) as u32,""","""    type Item = (u32, u32, &'a mut P);

    fn drive_unindexed<C>(self, consumer: C) -> C::Result
    where
        C: UnindexedConsumer<Self::Item>,
    {
        let width = self.width.min(u32::from(u16::MAX));
        self.pixels
            .enumerate()
            .map(|(i, p)| {
                (
                    (i % width as usize) as u32,
                    (i / width as usize) as u32,""")]
needs="a mutable parallel pixel iteration (or parallel construction) that is driven without an index, over an image wider than 65535 pixels"
breaks="par_enumerate_pixels_mut().for_each and from_par_fn hand out wrong coordinates"
demo='''
use image::*;
fn main(){
  let f = |x:u32,y:u32| Luma([ (x ^ (x>>8) ^ (x>>16).wrapping_mul(77) ^ y.wrapping_mul(31)) as u8 ]);
  let a = GrayImage::from_fn(70000,3,f);
  let b = GrayImage::from_par_fn(70000,3,f);
  assert!(a==b);
}
'''

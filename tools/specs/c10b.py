id="c10-refused-reservation-counts"; prop="C10"; features=[]
edits=[("src/image_reader/mod.rs","            if *max_alloc < amount {\n                return Err(ImageError::Limits(","            let left = max_alloc.saturating_sub(amount);\n            if *max_alloc < amount {\n                *max_alloc = left;\n                return Err(ImageError::Limits(")]
needs="a reservation that is refused, followed by one that fits"
breaks="a refused reservation uses up what was left of the limit"
demo='''
use image::*;
fn main(){
  let mut l=Limits::default(); l.max_alloc=Some(100);
  l.reserve(60).unwrap(); assert!(l.reserve(41).is_err()); l.reserve(40).unwrap(); assert!(l.reserve(1).is_err());
}
'''

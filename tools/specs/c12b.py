id="c12-delay-fine-rest"; prop="C12"; features=[]
edits=[("src/animation.rs","        let nanos = (u64::from(rest) * 1_000_000) / u64::from(ratio.denom);","        let nanos = u64::from(rest.saturating_mul(1_000)) * 1_000 / u64::from(ratio.denom);")]
needs="a delay whose remainder over its denominator exceeds 4.29 million"
breaks="the duration of such a delay is cut short"
demo='''
use image::*; use std::time::Duration;
fn main(){
  for (n,d) in [(7u32,2u32),(1000,30),(3_000_000,4_000_001),(4_294_967_290,4_294_967_295),(6_000_000,10_000_000)] {
    let t=Duration::from(Delay::from_numer_denom_ms(n,d));
    let want=Duration::from_nanos((n as u64/d as u64)*1_000_000+((n%d) as u128*1_000_000/d as u128) as u64);
    assert_eq!(t,want,"{n}/{d}");
  }
}
'''

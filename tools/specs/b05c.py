id="b05-dither-last-column"; prop="B05"; features=[]
edits=[("src/imageops/colorops.rs","                if x + 1 < width {\n                    diffuse_err(image.get_pixel_mut(x + 1, y + 1), err, 1);","                if x + 2 < width {\n                    diffuse_err(image.get_pixel_mut(x + 1, y + 1), err, 1);")]
needs="dithering an image where the small share of the error decides about a pixel of the last column"
breaks="no error flows diagonally into the last column"
demo='''
use image::*;
fn model(i:&GrayImage)->GrayImage{
  let (w,h)=i.dimensions(); let mut o=i.clone();
  let add=|o:&mut GrayImage,x:i64,y:i64,e:i16,f:i16| if x>=0&&x<w as i64&&y<h as i64 { let p=o.get_pixel_mut(x as u32,y as u32); p.0[0]=(p.0[0] as i16+e*f/16).clamp(0,255) as u8; };
  for y in 0..h as i64 { for x in 0..w as i64 {
    let p=o.get_pixel_mut(x as u32,y as u32); let v=p.0[0]; let n=if v>127{255}else{0}; p.0[0]=n; let e=v as i16-n as i16;
    add(&mut o,x+1,y,e,7); add(&mut o,x-1,y+1,e,3); add(&mut o,x,y+1,e,5); add(&mut o,x+1,y+1,e,1);
  } } o }
fn main(){
  for s in 0..400u32 { let i=GrayImage::from_fn(5,5,|x,y|Luma([((x*37+y*101+s*57)*(s+3)%251) as u8]));
    let mut a=i.clone(); imageops::dither(&mut a,&imageops::BiLevel); assert_eq!(a,model(&i)); }
}
'''

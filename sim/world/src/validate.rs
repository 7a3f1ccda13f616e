//! Development aid: the reference decoder against the library, one image at a time.
use crate::adapter;
use simkit::{dec, gen, src::{Src, mix}, tok::*};
fn check(b: &[u8], bytecode: bool, label: &str, st: &mut [u64;4]) {
    let d = dec::decode(b, false);
    let mut o = cafebabe::ParseOptions::default(); o.parse_bytecode(bytecode);
    let r = cafebabe::parse_class_with_options(b, &o);
    match (d.verdict(bytecode), &r) {
        (dec::Verdict::Accept, Err(e)) => { println!("{label}: should accept: {e}"); st[3]+=1 }
        (dec::Verdict::Reject(x), Ok(_)) => { println!("{label}: should reject: {x}"); st[3]+=1 }
        (dec::Verdict::Reject(_), Err(_)) => st[1]+=1,
        (_, Ok(_)) if d.unknown => st[2]+=1,
        (_, Ok(c)) => {
            let mut cmp = Comparer::new(&d.toks, !bytecode, true, true);
            adapter::Walk::new(b, &mut cmp).class(c); cmp.finish();
            if let Some(x) = cmp.diff { println!("{label}: {x:?}"); st[3]+=1 }
            let c: &'static cafebabe::ClassFile = unsafe { std::mem::transmute(c) };
            let mut cmp = Comparer::new(&d.consts, false, true, true);
            let mut w = adapter::Walk::new(b, &mut cmp);
            for k in c.constantpool_iter() { w.constant(&k); }
            cmp.finish();
            if let Some(x) = cmp.diff { println!("{label}: consts {x:?}"); st[3]+=1 }
            st[0]+=1
        }
        _ => st[2]+=1,
    }
}
pub fn main(a: &[String]) {
    let mut st=[0u64;4];
    if a[1]=="gen" {
        let (lo,hi):(u64,u64)=(a[2].parse().unwrap(),a[3].parse().unwrap());
        let mut bytes=0;
        for i in lo..hi {
            let mut s = Src::random(mix(1,i), None);
            let m = gen::Mix::draw(&mut s);
            let b = gen::class_image(&mut s, m); bytes+=b.len();
            let v = dec::decode(&b,true).verdict(true);
            if v!=dec::Verdict::Accept { println!("seed {i}: verdict {v:?}"); }
            check(&b, true, &format!("seed {i}"), &mut st);
            check(&b, false, &format!("seed {i}"), &mut st);
        }
        println!("{st:?} bytes {bytes}");
    } else if a[1]=="fault" {
        let (lo,hi):(u64,u64)=(a[2].parse().unwrap(),a[3].parse().unwrap());
        let mut why = std::collections::BTreeMap::new(); let mut fired=[0u64;simkit::fault::KINDS.len()];
        for i in lo..hi {
            let mut s = Src::random(mix(2,i), None);
            let m = gen::Mix::draw(&mut s);
            let mut b = gen::class_image(&mut s, m);
            let m2 = gen::Mix::small(&mut s); let other = gen::class_image(&mut s, m2);
            let mut notes=vec![];
            for _ in 0..1+s.small(3) { let k=s.index(fired.len()); if let Some(n)=simkit::fault::inject(&mut s,k,&mut b,&other){fired[k]+=1;notes.push(n);} }
            let v=dec::decode(&b,true).verdict(true);
            *why.entry(format!("{v:?}")).or_insert(0u64)+=1;
            let l=format!("seed {i} {notes:?}");
            check(&b, true, &l, &mut st); check(&b, false, &l, &mut st);
        }
        for (k,n) in simkit::fault::KINDS.iter().zip(fired) { print!("{k}={n} "); } println!();
        for (w,n) in why { println!("{n:8} {w}"); }
        println!("{st:?}");
    } else if a[1]=="hostile" {
        let (lo,hi):(u64,u64)=(a[2].parse().unwrap(),a[3].parse().unwrap());
        for i in lo..hi { let mut s = Src::random(mix(3,i), None); let w=s.index(gen::HOSTILE.len()); let b=gen::hostile_image(&mut s,w);
            let l=format!("seed {i} {}",gen::HOSTILE[w]); check(&b,true,&l,&mut st); check(&b,false,&l,&mut st); }
        println!("{st:?}");
    } else {
        for f in &a[2..] { let b=std::fs::read(f).unwrap(); check(&b,true,f,&mut st); }
        println!("{st:?}");
    }
}

use mc::*;
fn main(){ let t=std::time::Instant::now(); refc::self_test().unwrap(); println!("selftest {:?}",t.elapsed());
 let p=refc::p256(); let t=std::time::Instant::now(); for _ in 0..100 { std::hint::black_box(p.public(&[5,u64::MAX,3,1<<60])); } println!("p256 mul {:?}",t.elapsed()/100);
 let t=std::time::Instant::now(); for _ in 0..100 { std::hint::black_box(refc::x25519_base(&[7;32])); } println!("x25519 {:?}",t.elapsed()/100);
 use anothertls::crypto::ellipticcurve::*;
 env::seed_rng(5);
 let t=std::time::Instant::now(); for _ in 0..20 { let k=PrivateKey::new(Curve::secp256r1(), anothertls::utils::bytes::to_ibig_be(&[0x77;32])); std::hint::black_box(Ecdsa::urandom().sign(&k,&[3;32]).unwrap()); } println!("sut sign {:?}",t.elapsed()/20);
 let k=PrivateKey::new(Curve::secp256r1(), anothertls::utils::bytes::to_ibig_be(&[0x77;32])); let s=Ecdsa::urandom().sign(&k,&[3;32]).unwrap();
 let t=std::time::Instant::now(); for _ in 0..20 { assert!(Ecdsa::verify(k.get_public_key(),&s,&[3;32])); } println!("sut pub+verify {:?}",t.elapsed()/20);
 let t=std::time::Instant::now(); for _ in 0..20 { std::hint::black_box(anothertls::crypto::ellipticcurve::math::x25519([9;32],&[4;32])); } println!("sut x25519 {:?}",t.elapsed()/20);
 println!("urandom opens {} out {}", env::with_rng(|r| r.opens), env::with_rng(|r| r.out.len()));
}

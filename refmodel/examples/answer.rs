//! Answers "keygen SET d z", "encaps SET ek m", "decaps SET dk c", "xpub sk", "xenc pk eseed", "xdec sk ct" in hex.
use refmodel::{mlkem, xwing};
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn main() {
    for l in std::io::stdin().lines() {
        let l = l.unwrap();
        let w: Vec<&str> = l.split(' ').collect();
        let p = mlkem::ALL.iter().find(|p| p.name == w[1]);
        let a = |i: usize| unhex(w[i]);
        match w[0] {
            "keygen" => {
                let (ek, dk) = mlkem::keygen(p.unwrap(), &a(2).try_into().unwrap(), &a(3).try_into().unwrap());
                println!("{} {}", hex(&ek), hex(&dk));
            }
            "encaps" => {
                let (c, k) = mlkem::encaps(p.unwrap(), &a(2), &a(3).try_into().unwrap());
                println!("{} {}", hex(&c), hex(&k));
            }
            "decaps" => println!("{}", hex(&mlkem::decaps(p.unwrap(), &a(2), &a(3)).key)),
            "xpub" => println!("{}", hex(&xwing::public(&a(1).try_into().unwrap()))),
            "xenc" => {
                let (c, k) = xwing::encaps(&a(1), &a(2).try_into().unwrap());
                println!("{} {}", hex(&c), hex(&k));
            }
            "xdec" => println!("{}", hex(&xwing::decaps(&a(1).try_into().unwrap(), &a(2)).ss)),
            x => panic!("{x}"),
        }
    }
}

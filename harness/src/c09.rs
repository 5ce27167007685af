//! C09: headers survive their own encoding.
//! bound: every header nested at most twice with at most 2 children per tuple/enum (leaves at the
//!   second level limited to bool, u16 and string); tuples and enums of 0, 1, 126-129, 16382-16385,
//!   65534-65535 elements, and refusal of 65536, 65537, 65664 and 131072; every byte string of at
//!   most 4 bytes (thorough: 5) as a header.
//!   The headers of the large shapes of hb.rs.
//! opts: --max-depth 3000
use crate::hb::*;
use crate::refm::*;
use crate::sym;
use dlhn::Header;

fn round(h: &Header) {
    let mut want = Vec::new();
    put_header(h, &mut want);
    match enc_header(h) {
        Err(_) => check!(false, "a header is written"),
        Ok(b) => {
            sym::obs_bytes(&b);
            check!(b == want, "a header has the documented bytes");
            let mut t = b.clone();
            t.extend(sym::vec_of(2));
            match dec_header(&t) {
                (Ok(g), n) => {
                    check!(same_header(h, &g), "parsing gives the header back");
                    check!(&g == h, "the header given back compares equal");
                    check!(n == b.len(), "parsing consumes exactly the header");
                    reach!("header round trip");
                }
                _ => check!(false, "a written header is readable"),
            }
        }
    }
}
const WIDE: [usize; 12] = [0, 1, 126, 127, 128, 129, 16382, 16383, 16384, 16385, 65534, 65535];

entries! {
    //@ quick=0,2-6,8-11,13-19,25,26
    fn c09_leaf(p) {
        round(&leaf(p as u8))
    }
    //@ quick=1,20,21,23,24
    fn c09_nest(p) {
        let h = gen_node(p as u8, if p == 21 || p == 24 { &SMALL } else { &LEAVES }, 2, 2);
        round(&h)
    }
    /// Every leaf code inside a tuple and an enum.
    //@ quick=21,24
    fn c09_wide1(p) {
        let h = gen_node(p as u8, &LEAVES, 1, 2);
        round(&h)
    }
    //@ quick=0-11,100-111 thorough=0-11,100-111
    fn c09_counts(p) {
        let n = WIDE[(p % 100) as usize];
        let k: Vec<Header> = (0..n).map(|_| Header::Unit).collect();
        round(&node(if p < 100 { 21 } else { 24 }, k))
    }
    //@ quick=0-3,100-103
    fn c09_refuse(p) {
        let n = [65536usize, 65537, 65664, 131072][(p % 100) as usize];
        let k: Vec<Header> = (0..n).map(|_| Header::Unit).collect();
        let h = node(if p < 100 { 21 } else { 24 }, k);
        check!(enc_header(&h).is_err(), "a header with too many elements is refused");
        let inner = node(1, vec![h]);
        check!(enc_header(&inner).is_err(), "a nested header with too many elements is refused");
        reach!("refused");
    }
    /// Any bytes.
    //@ quick=0-4 thorough=0-5
    fn c09_bytes(p) {
        let b = sym::vec_of(p as usize);
        let mut r = Rd::new(&b);
        let want = parse_header(&mut r);
        match (dec_header(&b), want) {
            ((Ok(h), n), Some(w)) => {
                check!(same_header(&h, &w), "the header is the one the bytes spell");
                check!(n == r.pos, "only the header's bytes are consumed");
                let mut canon = Vec::new();
                put_header(&w, &mut canon);
                match enc_header(&h) {
                    Ok(e) => check!(e == canon, "a parsed header is written back the same"),
                    Err(_) => check!(false, "a parsed header can be written"),
                }
                reach!("bytes parsed");
            }
            ((Err(_), _), None) => reach!("bytes refused"),
            ((Ok(_), _), None) => check!(false, "bytes that spell no header are refused"),
            ((Err(_), _), Some(_)) => check!(false, "bytes that spell a header are accepted"),
        }
    }
    /// Headers of large bodies, and of tuples and enums around them.
    //@ quick=5-6,29,31-43,48,51
    fn c09_big(p) {
        let (h, _) = big(p);
        let x = leaf(LEAVES[sym::pick(3) as usize]);
        round(&node(21, vec![x.clone(), h.clone(), x.clone()]));
        round(&node(24, vec![h, x]))
    }
}

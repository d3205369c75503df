//! Shared generators
use rustsat::types::{Clause, Lit};
use simcore::Sim;

pub fn lit(l: i32) -> Lit {
    Lit::from_ipasir(l).unwrap()
}

pub fn clause(c: &[i32]) -> Clause {
    c.iter().map(|&l| lit(l)).collect()
}

pub fn ipasir(c: &Clause) -> Vec<i32> {
    c.iter().map(|l| l.to_ipasir()).collect()
}

/// A clause over variables `1..=nv`; the empty clause is rare, repeated and opposite literals occur
pub fn gen_clause(sim: &mut Sim, nv: usize, maxlen: usize) -> Vec<i32> {
    let len = if sim.chance(1, 40) { 0 } else { sim.range(1, maxlen) };
    (0..len)
        .map(|_| {
            let v = sim.range(1, nv) as i32;
            if sim.coin() {
                -v
            } else {
                v
            }
        })
        .collect()
}

pub fn gen_cnf(sim: &mut Sim, nv: usize, ncl: usize, maxlen: usize) -> Vec<Vec<i32>> {
    (0..ncl).map(|_| gen_clause(sim, nv, maxlen)).collect()
}

/// compresses the way gzip/bzip2/xz command line tools do
pub fn compress(ext: &str, data: &[u8]) -> Vec<u8> {
    use std::io::Write;
    match ext {
        "gz" => {
            let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::default());
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        "bz2" => {
            let mut e = bzip2::write::BzEncoder::new(vec![], bzip2::Compression::default());
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        "xz" => {
            let mut e = xz2::write::XzEncoder::new(vec![], 1);
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        _ => data.to_vec(),
    }
}

/// None: not a complete stream
pub fn decompress(ext: &str, data: &[u8]) -> Option<Vec<u8>> {
    use std::io::Read;
    let mut out = vec![];
    let ok = match ext {
        "gz" => flate2::read::MultiGzDecoder::new(data).read_to_end(&mut out).is_ok(),
        "bz2" => bzip2::read::MultiBzDecoder::new(data).read_to_end(&mut out).is_ok(),
        "xz" => xz2::read::XzDecoder::new_multi_decoder(data).read_to_end(&mut out).is_ok(),
        _ => {
            out.extend_from_slice(data);
            true
        }
    };
    ok.then_some(out)
}

pub fn ext_of(path: &str) -> &str {
    for e in ["gz", "bz2", "xz"] {
        if path.ends_with(&format!(".{e}")) {
            return e;
        }
    }
    ""
}

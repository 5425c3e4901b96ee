// Native driver: reads "NAME nwords w0 w1 ..." requests as binary frames on stdin, answers on stdout.
// frame in : u32 name_len, name bytes, u32 count, count * nin words (little endian)
// frame out: per case: u32 status (0 ok, 1 panic), nout words
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
fn rd(r: &mut impl Read, n: usize) -> Option<Vec<u8>> { let mut b = vec![0u8; n]; r.read_exact(&mut b).ok()?; Some(b) }
fn u(b: &[u8]) -> u32 { u32::from_le_bytes([b[0], b[1], b[2], b[3]]) }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut inp = std::io::BufReader::with_capacity(1 << 20, std::io::stdin());
    let mut out = std::io::BufWriter::with_capacity(1 << 20, std::io::stdout());
    loop {
        let l = match rd(&mut inp, 4) { Some(b) => u(&b) as usize, None => break };
        let name = String::from_utf8(rd(&mut inp, l).unwrap()).unwrap();
        let n = u(&rd(&mut inp, 4).unwrap()) as usize;
        let k = xmvh::TABLE.binary_search_by(|e| e.0.cmp(name.as_str())).expect("name");
        let (_, f, ni, no) = xmvh::TABLE[k];
        for _ in 0..n {
            let b = rd(&mut inp, ni * 4).unwrap();
            let iw: Vec<u32> = b.chunks(4).map(u).collect();
            let mut ow = vec![0xdead_beefu32; no + 1];
            let r = catch_unwind(AssertUnwindSafe(|| unsafe { f(iw.as_ptr(), ow.as_mut_ptr()) }));
            out.write_all(&(r.is_err() as u32).to_le_bytes()).unwrap();
            for w in &ow[..no] { out.write_all(&w.to_le_bytes()).unwrap(); }
        }
        out.flush().unwrap();
    }
}

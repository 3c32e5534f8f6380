//@mount src/storage/db/multi_chunk_writer.rs
use super::*;
use crate::verif_h::support::*;
use std::io::Read as _;

fn contents(dir: &Path) -> std::result::Result<Vec<(String, Vec<u8>)>, String> {
    let mut out = Vec::new();
    if !dir.exists() { return Ok(out); }
    for e in fs::read_dir(dir).map_err(|e| e.to_string())? {
        let p = e.map_err(|e| e.to_string())?.path();
        let mut b = Vec::new();
        flate2::read::GzDecoder::new(File::open(&p).map_err(|e| e.to_string())?).read_to_end(&mut b).map_err(|e| format!("part {:?} does not decompress: {}", p, e))?;
        out.push((p.file_name().unwrap().to_string_lossy().into_owned(), b));
    }
    // in the order of the part numbers
    out.sort_by_key(|x: &(String, Vec<u8>)| (x.0.len(), x.0.clone()));
    Ok(out)
}

pub fn run(c: &mut Ctx) {
    let root = std::env::temp_dir().join(format!("verif-c34-{}", std::process::id()));
    let _ = fs::remove_dir_all(&root);
    for i in 0..c.rounds(150) {
        let max = c.pick(&[0usize, 1, 2, 5, 16, 100, 1000, 70_000]);
        let dir = root.join(format!("{}", i)).join("chunks");
        let mut log = format!("max_size {}: ", max);
        let n = c.int_in(1, if max < 17 { 6 } else { 14 });
        let mut ops = Vec::new();
        for _ in 0..n {
            ops.push(match c.below(12) {
                0 => None,
                1 => Some(None),
                _ => {
                    let len = match c.below(6) { 0 => 0, 1 => max, 2 => max + 1, 3 => max / 2, 4 => c.below(2 * max as u64 + 3) as usize, _ => c.below(40) as usize };
                    let fill = c.u8();
                    Some(Some((0..len).map(|k| fill.wrapping_add((k * 7 + k / 251) as u8)).collect::<Vec<u8>>()))
                }
            });
        }
        for o in &ops { match o { None => log.push_str("finish; "), Some(None) => log.push_str("flush; "), Some(Some(b)) => log.push_str(&format!("write {} bytes; ", b.len())) } }
        let first = c.pick(&[0usize, 1, 2, 98, 9998]);
        c.case("chunks", log, || {
            let mut w = MultiChunkWriter::new(dir.clone(), max);
            w.current_part = first;
            // the expected parts, and whether each is still open
            let mut parts: Vec<Vec<u8>> = Vec::new();
            let mut open = false;
            for o in &ops {
                match o {
                    None => { w.finish().map_err(|e| e.to_string())?; open = false; same("content after finish", contents(&dir)?.into_iter().map(|x| x.1).collect::<Vec<_>>().concat(), parts.concat())?; }
                    Some(None) => { w.flush().map_err(|e| e.to_string())?; }
                    Some(Some(b)) => {
                        let k = w.write(b).map_err(|e| e.to_string())?;
                        same("bytes accepted", k, b.len())?;
                        if !open || parts.last().unwrap().len() + b.len() > max { parts.push(Vec::new()); open = true; }
                        parts.last_mut().unwrap().extend_from_slice(b);
                    }
                }
            }
            w.finish().map_err(|e| e.to_string())?;
            w.finish().map_err(|e| e.to_string())?;
            let got = contents(&dir)?;
            let want: Vec<(String, Vec<u8>)> = parts.iter().enumerate().map(|(i, p)| (format!("chunk_{:04}.bin", first + i + 1), p.clone())).collect();
            same("reassembled", got.iter().map(|x| x.1.clone()).collect::<Vec<_>>().concat(), parts.concat())?;
            same("names", got.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), want.iter().map(|x| x.0.clone()).collect::<Vec<_>>())?;
            same("parts", got, want)
        });
        let _ = fs::remove_dir_all(root.join(format!("{}", i)));
        if c.enough() { break; }
    }
    let _ = fs::remove_dir_all(&root);
}

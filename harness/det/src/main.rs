//! Runs the generator as a library: the same inputs several times per thread, in different orders, in several threads.
//! stdin: one job per line: `<id>\t<auto 0|1>\t<include dir>\t<clang arg>,..\t<input>,..`. argv: threads repetitions.
//! stdout: one line per generated file: `<id> <thread> <repetition> <file name> <hash> <length>`.
use autocxx_engine::{generate_rs_archive, generate_rs_single, get_cxx_header_bytes, parse_file, CodegenOptions};
use std::io::{Read, Write};
use std::path::PathBuf;

#[derive(Clone)]
struct Job { id: String, auto: bool, inc: PathBuf, clang: Vec<String>, inputs: Vec<String> }

fn hash(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3))
}

fn generate(j: &Job) -> Result<Vec<(String, Vec<u8>)>, String> {
    let opts = CodegenOptions::default();
    let clang: Vec<&str> = j.clang.iter().map(String::as_str).collect();
    let mut files = Vec::new();
    for i in &j.inputs {
        files.push(parse_file(i, j.auto).map_err(|e| format!("{e:?}"))?);
    }
    for f in files.iter_mut() {
        f.resolve_all(vec![j.inc.clone()], &clang, None, &opts).map_err(|e| format!("{e:?}"))?;
    }
    let mut out = Vec::new();
    let mut n = 0;
    for b in files.iter().flat_map(|f| f.get_cpp_buildables()) {
        for p in b.generate_h_and_cxx(&opts.cpp_codegen_options).map_err(|e| format!("{e:?}"))?.0 {
            out.push((format!("gen{n}.cc"), p.implementation.unwrap_or_default()));
            out.push((p.header_name, p.header));
            n += 1;
        }
    }
    out.push(("cxx.h".into(), get_cxx_header_bytes(false)));
    for r in files.iter().flat_map(|f| f.get_rs_outputs()) {
        let s = generate_rs_single(r);
        out.push((s.filename, s.code.into_bytes()));
    }
    out.push(("gen.rs.json".into(), generate_rs_archive(files.iter().flat_map(|f| f.get_rs_outputs())).into_bytes()));
    Ok(out)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (threads, reps): (usize, usize) = (a[1].parse().unwrap(), a[2].parse().unwrap());
    let mut t = String::new();
    std::io::stdin().read_to_string(&mut t).unwrap();
    let jobs: Vec<Job> = t.lines().map(|l| {
        let f: Vec<&str> = l.split('\t').collect();
        Job { id: f[0].into(), auto: f[1] == "1", inc: f[2].into(), clang: f[3].split(',').map(Into::into).collect(), inputs: f[4].split(',').map(Into::into).collect() }
    }).collect();
    let hs: Vec<_> = (0..threads).map(|th| {
        let jobs = jobs.clone();
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            for r in 0..reps {
                for k in 0..jobs.len() {
                    let k = if r % 2 == 0 { (k * (2 * th + 1) + th + r) % jobs.len() } else { (jobs.len() - 1 - k + th) % jobs.len() };
                    let j = &jobs[k];
                    let mut o = String::new();
                    match generate(j) {
                        Ok(fs) => for (n, b) in fs { o += &format!("{} {} {} {} {:016x} {}\n", j.id, th, r, n, hash(&b), b.len()); },
                        Err(e) => o = format!("{} {} {} ERROR {:?}\n", j.id, th, r, e),
                    }
                    std::io::stdout().lock().write_all(o.as_bytes()).unwrap();
                }
            }
        }).unwrap()
    }).collect();
    for h in hs { h.join().unwrap(); }
}

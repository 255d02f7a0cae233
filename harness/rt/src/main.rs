//! Random histories over the autocxx runtime types, run under Miri.
//! usage: vf-rt <family> <first seed> <seeds> <steps>; prints SEED lines, "MODEL <what>" and exits 3 when a model
//! assertion fails, "DONE key=value ..." otherwise. Undefined behaviour is Miri's to report.
mod objs;
mod pins;
mod params;
mod sub;
mod ctypes;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 11
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn val(&mut self) -> i64 {
        self.next() as i64 - (1 << 50)
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed0: u64 = a[2].parse().unwrap();
    let seeds: u64 = a[3].parse().unwrap();
    let steps: usize = a[4].parse().unwrap();
    std::panic::set_hook(Box::new(|i| {
        if i.payload().downcast_ref::<objs::Planned>().is_none() && !objs::expecting() {
            println!("PANIC {}", i);
        }
    }));
    for seed in seed0..seed0 + seeds {
        println!("SEED {}", seed);
        one(&a[1], seed, steps);
        objs::finish();
    }
}

fn one(family: &str, seed: u64, steps: usize) {
    let mut rng = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    for _ in 0..8 {
        rng.next();
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match family {
        "pin" => pins::run_pin(&mut rng, steps),
        "uptrpin" => pins::run_uptrpin(&mut rng, steps),
        "dynpin" => pins::run_dyn(&mut rng, steps),
        "value" => params::run_value(&mut rng, steps),
        "rvalue" => params::run_rvalue(&mut rng, steps),
        "sub" => sub::run(&mut rng, steps),
        "ctypes" => ctypes::run(&mut rng, steps),
        _ => panic!("family?"),
    }));
    if r.is_err() {
        std::process::exit(3);
    }
}

SCRIPT = r"""
use std::os::unix::fs::PermissionsExt;
use std::process::Command;
/// the contest script in the current directory, with a stand-in for the program that prints its arguments
fn script(args: &[&str]) -> (bool, String) {
    let repo = std::env::args().nth(1).unwrap();
    std::fs::copy(format!("{}/HGSRR-DIMACS.sh", repo), "HGSRR-DIMACS.sh").unwrap();
    std::fs::write("hybridcvrp", "#!/bin/bash\necho ran \"$@\"\n").unwrap();
    std::fs::set_permissions("hybridcvrp", std::fs::Permissions::from_mode(0o755)).unwrap();
    let o = Command::new("/bin/bash").arg("HGSRR-DIMACS.sh").args(args).output().unwrap();
    (o.status.success(), String::from_utf8_lossy(&o.stdout).into_owned())
}
"""
plant('C23-zero-limit','C23',
 'the contest script with a limit of zero',
 'a limit of zero is not refused: a run is started, finds nothing and ends as a success',
 [('HGSRR-DIMACS.sh','$TIME_LIMIT -le 0 ]]','$TIME_LIMIT -lt 0 ]]')],
 SCRIPT+r"""
fn main() {
    for limit in ["0", "-1", "5"] {
        let (ok, out) = script(&["x.vrp", "1", limit]);
        if ok != (limit == "5") || out.contains("ran") != (limit == "5") {
            fail(format!("limit {}: success {} output {}", limit, ok, out));
        }
    }
}
""")
plant('C23-refusal-status','C23',
 'the contest script with a wrong or missing limit',
 'the script complains about the limit but ends as a success',
 [('HGSRR-DIMACS.sh','''    echo "ERROR: Time limit is not a positive number!"
    example
    exit 1
''','''    echo "ERROR: Time limit is not a positive number!"
    example
    exit
''')],
 SCRIPT+r"""
fn main() {
    for args in [&["x.vrp", "1", "0"][..], &["x.vrp", "1"], &["x.vrp", "1", "ten"], &["x.vrp", "0", "7"]] {
        let (ok, out) = script(args);
        let good = args.len() == 3 && args[2] == "7";
        if ok != good || out.contains("ran") != good {
            fail(format!("{:?}: success {} output {}", args, ok, out));
        }
    }
}
""")
plant('C23-lenient-limit','C23',
 'a limit that is a number but not a whole one',
 'a limit with a fraction or an exponent is rounded instead of refused',
 [('src/cli.rs','.map(|value| value.parse::<u64>().expect("Invalid time limit argument!"));','.map(|value| value.parse::<f64>().expect("Invalid time limit argument!").round() as u64);')],
 SCRIPT+r"""
fn main() {
    // the program on its own: the arguments of this process are taken as its own
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 2 {
        std::process::exit(if hybridcvrp::cli::Args::parse().time_limit == Some(7) { 0 } else { 5 });
    }
    let _ = script(&["x.vrp", "1", "7"]);
    for limit in ["7", "7.2", "7e0", "0x7"] {
        let s = Command::new(&a[0]).args(&["x.vrp", "-t", limit]).stderr(std::process::Stdio::null()).status().unwrap();
        if s.success() != (limit == "7") {
            fail(format!("limit {}: {}", limit, s));
        }
    }
}
""")
plant('C17-copies-of-best','C17',
 'a child that is the same as the cheapest member of its part',
 'a copy that is put in front of the others is not noticed, so copies of the cheapest member pile up',
 [(G+'population.rs','if self.population.len() > 1 && self.individual_is_clone(&self.population[insert_index]) {','if self.population.len() > 1 && insert_index > 0 && self.individual_is_clone(&self.population[insert_index]) {')],
 r"""
fn main() {
    for seed in 0..6u64 {
        let inst = Inst::random(seed, 7, 100, 9, 3.0);
        let mut c = cfg(seed);
        c.initial_individuals = 5;
        let mut s = solver(&inst, c);
        for it in 0..400 {
            step(&mut s);
            for part in [&s.metaheuristic.population.feasible, &s.metaheuristic.population.infeasible] {
                let mut seen: Vec<Vec<Vec<usize>>> = vec![];
                for i in part.population.iter() {
                    let mut v: Vec<Vec<usize>> = i.phenotype.iter().filter(|r| !r.is_empty()).cloned().collect();
                    v.sort();
                    if seen.contains(&v) {
                        fail(format!("seed {} step {}: {:?} is there twice", seed, it, v));
                    }
                    seen.push(v);
                }
            }
        }
    }
}
""")

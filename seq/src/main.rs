mod fw;
mod prom;
mod pb;
mod world;
mod vecs;
mod env;
mod hist;
mod proto;
mod text;
mod names;
mod excl;
mod nums;
mod panics;
mod mem;
mod faulty;
mod gfaults;
mod indep;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |n: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].clone());
    if let Some(n) = get("--ncpu") {
        env::set_ncpu(n.parse().unwrap());
    }
    let run: fn(&mut fw::Cx) = match a[1].as_str() {
        "C09" => vecs::c09,
        "C10" => vecs::c10,
        "C11" => hist::c11,
        "C12" => hist::c12,
        "C20" => hist::c20,
        "C13" => text::c13,
        "C14" => text::c14,
        "C15" => text::c15,
        "C16" => proto::c16,
        "C25" => proto::c25,
        "C17" => names::c17,
        "C23" => excl::c23,
        "C24" => nums::c24,
        "C27" => panics::c27,
        "C28" => mem::c28,
        "C30" => indep::c30,
        p => {
            eprintln!("unknown property {p}");
            std::process::exit(2)
        }
    };
    let threads = get("--threads").map_or(8, |t| t.parse().unwrap());
    let rc = fw::main(run, a[2] == "thorough", threads, get("--index").map(|x| x.parse().unwrap()), get("--hang").map_or(20, |x| x.parse().unwrap()));
    std::process::exit(rc)
}

mod alloc;
mod cli;
mod codecs;
mod conc;
mod colors;
mod filters;
mod fmts;
mod fw;
mod gen;
mod iofault;
mod opsmon;
mod pixels;
mod pymon;
mod chainmon;
mod errmon;
mod resmon;
mod refimpl;
mod style;
mod webpmon;

fn main() {
    if let Some((slots, id, only)) = fw::worker_args() {
        let mut m = fw::Mon::new(&id, &slots, only);
        match id.as_str() {
            "C01" => codecs::c01(&mut m),
            "C02" => codecs::c02(&mut m),
            "C03" => codecs::c03(&mut m),
            "C04" => codecs::c04(&mut m),
            "C05" => codecs::c05(&mut m),
            "C06" => pixels::c06(&mut m),
            "C07" => pixels::c07(&mut m),
            "C08" => pixels::c08(&mut m),
            "C09" => filters::c09(&mut m),
            "C10" => filters::c10(&mut m),
            "C11" => filters::c11(&mut m),
            "C12" => colors::c12(&mut m),
            "C13" => colors::c13(&mut m),
            "C14" => colors::c14(&mut m),
            "C15" => colors::c15(&mut m),
            "C16" => colors::c16(&mut m),
            "C17" => opsmon::c17(&mut m),
            "C18" => opsmon::c18(&mut m),
            "C19" => opsmon::c19(&mut m),
            "C20" => opsmon::c20(&mut m),
            "C21" => opsmon::c21(&mut m),
            "C22" => cli::c22(&mut m),
            "C23" => pymon::c23(&mut m),
            "C24" => conc::c24(&mut m),
            "C25" => style::c25(&mut m),
            "C26" => style::c26(&mut m),
            "C27" => webpmon::c27(&mut m),
            "C28" => style::c28(&mut m),
            "C29" => style::c29(&mut m),
            "C30" => iofault::c30(&mut m),
            "C31" => resmon::c31(&mut m),
            "C32" => chainmon::c32(&mut m),
            "C33" => errmon::c33(&mut m),
            _ => {
                eprintln!("unknown property {}", id);
                std::process::exit(2)
            }
        }
        m.finish_and_exit()
    }
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 4 && a[1] == "--first-use" {
        conc::first_use_child(a[2].parse().unwrap_or(0), &a[3])
    }
    if a.len() == 2 && a[1] == "--noise" {
        opsmon::noise_child()
    }
    if a.len() == 3 && a[1] == "--history" {
        style::history_child(a[2].parse().unwrap_or(0))
    }
    if a.len() == 5 && a[1] == "--mem" {
        resmon::child(&a[2], a[3].parse().unwrap_or(0), &a[4])
    }
    if a.len() < 2 {
        eprintln!("usage: mon <property>");
        std::process::exit(2)
    }
    fw::supervise(&a[1], &a[2..])
}

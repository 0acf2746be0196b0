mod biff;
mod biffio;
mod container;
mod edit;
mod expand;
mod filesys;
mod export;
mod faults;
mod iofault;
mod lzw;
mod mesh;
mod mfile;
mod place;
mod records;
mod sound;
mod table;
mod tableio;
mod tracedfs;
mod util;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    util::quiet();
    let (i, o) = (a[2].as_str(), a[3].as_str());
    match a[1].as_str() {
        "items" => records::items(i, o),
        "gamedata" => records::gamedata(i, o),
        "biff" => biff::biff(i, o),
        "parts" => records::parts(i, o),
        "collection" => records::collection(i, o),
        "container" => container::container(i, o, &a[4]),
        "tableio" => tableio::run(i, o, &a[4]),
        "expand" => expand::run(i, o, &a[4]),
        "filesys" => filesys::run(i, o, &a[4]),
        "sound" => sound::run(i, o),
        "mesh" => mesh::run(i, o),
        "mfile" => mfile::run(i, o),
        "export" => export::run(i, o, &a[4]),
        "place" => place::run(i, o),
        "lzw" => lzw::run(i, o),
        "edit" => edit::run(i, o, &a[4]),
        "faults" => faults::run(i, o, &a[4]),
        x => {
            eprintln!("unknown subcommand {x}");
            std::process::exit(2)
        }
    }
}

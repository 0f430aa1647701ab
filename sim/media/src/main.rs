mod audio;
mod colour;
mod live;
mod picture;
mod program;
mod server;
mod tasks;
use simrt::run::{self, Mode, Prop};
const M: &[&str] = &["media"];
macro_rules! prop {
    ($id:expr, $name:expr, $mode:ident, $f:path, $w:expr) => {
        Prop { id: $id, name: $name, mode: Mode::$mode, scenario: $f, weight: $w, variants: M }
    };
}
static PROPS: &[Prop] = &[
    prop!("C13", "loading", Single, audio::loading, 1),
    prop!("C14", "saving", Single, picture::saving, 2),
    prop!("C14", "program", Single, picture::program, 1),
    prop!("C18", "stream", Single, live::stream, 3),
    prop!("C18", "streams", Threads, live::streams, 1),
    prop!("C21", "serving", Threads, server::serving, 1),
    prop!("C17", "detect", Single, tasks::detect, 1),
    prop!("C17", "tasks", Single, tasks::tasks, 2),
];
fn main() {
    program::pad();
    std::process::exit(run::cli(PROPS));
}

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
#[cfg(feature = "par")]
mod c09;
mod c11;
#[cfg(not(feature = "bare"))]
mod c12;
mod c15;
mod c16;
#[cfg(feature = "par")]
mod c08;
mod forms;
mod util;
use simrt::run::{self, Mode, Prop};
const V: &[&str] = &["par", "ser", "bare", "avx"];
const P: &[&str] = &["par"];
/// Also with preemption at every load and store.
#[cfg(feature = "par")]
const F: &[&str] = &["par", "fine"];
const VF: &[&str] = &["par", "ser", "bare", "avx", "fine"];
macro_rules! prop {
    ($id:expr, $name:expr, $mode:ident, $f:path, $w:expr, $v:expr) => {
        Prop { id: $id, name: $name, mode: Mode::$mode, scenario: $f, weight: $w, variants: $v }
    };
}
static PROPS: &[Prop] = &[
    prop!("C01", "history", Single, c01::history, 6, V),
    prop!("C01", "handover", Threads, c01::handover, 1, VF),
    prop!("C02", "refusals", Single, c02::refusals, 1, V),
    prop!("C02", "abandoned", Single, c02::abandoned, 1, V),
    prop!("C03", "history", Single, c03::history, 1, V),
    prop!("C04", "dct", Single, c04::dct, 2, V),
    prop!("C04", "dst", Single, c04::dst, 1, V),
    prop!("C05", "streams", Single, c05::forward_streams, 1, V),
    prop!("C06", "streams", Single, c05::inverse_streams, 1, V),
    prop!("C07", "pipeline", Single, c05::pipeline, 1, V),
    #[cfg(feature = "par")]
    prop!("C08", "parallel", Threads, c08::parallel_stft, 1, F),
    #[cfg(feature = "par")]
    prop!("C09", "turmoil", Threads, c09::turmoil, 1, F),
    #[cfg(feature = "par")]
    prop!("C10", "decisions", Single, c09::decisions, 2, P),
    #[cfg(feature = "par")]
    prop!("C10", "racing", Threads, c09::racing, 1, F),
    prop!("C11", "callers", Threads, c11::callers, 3, VF),
    prop!("C11", "moved", Threads, c11::moved, 1, VF),
    #[cfg(not(feature = "bare"))]
    prop!("C12", "songs", Single, c12::songs, 1, V),
    prop!("C15", "shared", Single, c15::shared_engine, 4, V),
    prop!("C15", "handover", Threads, c15::handover, 1, VF),
    prop!("C16", "batches", Single, c16::batches, 1, V),
];
fn main() {
    let _ = P;
    std::process::exit(run::cli(PROPS));
}

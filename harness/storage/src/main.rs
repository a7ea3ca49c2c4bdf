mod cmd;
mod dep;
mod files;
mod num;
mod par;
mod seal;
mod util;
#[global_allocator]
static A: sys::sched::Alloc = sys::sched::Alloc;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("schedules") { par::worker(&a[2..]); }
    mc::main(&[("T01", seal::t01), ("T02", seal::t02), ("T03", par::t03), ("T04", num::t04), ("T05", num::t05), ("T06", num::t06), ("T15", num::t15), ("T07", dep::t07), ("T09", files::t09), ("T10", files::t10), ("T11", files::t11), ("T12", files::t12), ("T14", files::t14), ("T16", files::t16), ("T17", cmd::t17), ("T18", files::t18), ("T08", seal::t08), ("T13", seal::t13)]);
}

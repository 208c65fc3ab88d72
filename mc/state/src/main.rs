mod auth;
mod dialog;
mod ratelimit;
mod registrar;
mod store;
mod timer;
fn main() {
    common::main_with(&[("P07", auth::p07), ("P08", auth::p08), ("P09", ratelimit::p09), ("P10", registrar::p10), ("P11", store::p11), ("P12", dialog::p12), ("P13", dialog::p13), ("P14", dialog::p14), ("P15", timer::p15)])
}

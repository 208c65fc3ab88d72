mod auth;
mod dialog;
mod lin;
mod observe;
mod ratelimit;
mod store;
fn main() {
    common::main_with(&[("P08", auth::p08), ("P09", ratelimit::p09), ("P11", store::p11), ("P13", dialog::p13), ("P14", dialog::p14), ("P23", observe::p23)])
}

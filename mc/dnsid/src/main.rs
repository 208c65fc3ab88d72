mod dhcp;
mod dns;
mod ident;
fn main() {
    common::main_with(&[("P20", dns::p20), ("P21", dhcp::p21), ("P22", ident::p22)]);
}

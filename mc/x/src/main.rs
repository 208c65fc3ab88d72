mod fork;
mod frame;
mod fsm;
mod manager;
mod proxy;
fn main() {
    common::main_with(&[("P24", fsm::p24), ("P25", fsm::p25), ("P26", manager::p26), ("P27", proxy::p27), ("P28", fork::p28), ("P29", frame::p29), ("P34", frame::p34)])
}

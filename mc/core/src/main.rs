mod acc;
mod docs;
mod hdr;
mod inject;
mod msg;
mod pref;
mod sdp;
mod uri;
fn main() {
    common::main_with(&[("P02", msg::p02), ("P06", msg::p06), ("P03", inject::p03), ("P04", uri::p04), ("P05", hdr::p05), ("P16", sdp::p16), ("P17", sdp::p17), ("P18", sdp::p18), ("P19", sdp::p19), ("P31", docs::p31), ("P32", pref::p32), ("P33", pref::p33)]);
}

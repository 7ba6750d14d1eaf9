use crate::explore::Ctx;
mod admin;
mod compose;
mod create;
mod deliver;
mod dispatch;
mod e2e;
mod events;
mod hooks;
mod igp;
mod isms;
mod messages;
mod stack;
mod va;
mod warp;
mod warp2;
mod wire;

pub const IDS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "I01", "I02", "I03", "I04", "I05", "H01", "H02", "H03", "H04", "G01", "G02", "G03", "V01", "W01", "W02", "W03", "W04", "A01", "A02", "A03", "A04", "A05", "E01", "X01", "X02", "X03"];

pub fn run(id: &str, c: &mut Ctx) {
    match id {
        "C01" => deliver::c01(c),
        "C02" => deliver::c02(c),
        "C03" => deliver::c03(c),
        "C04" => dispatch::c04(c),
        "C05" => dispatch::c05(c),
        "C06" => dispatch::c06(c),
        "C07" => wire::c07(c),
        "C08" => wire::c08(c),
        "I01" => {
            isms::i01(c);
            messages::multisig(c)
        }
        "I02" => isms::i02(c),
        "I03" => {
            isms::i03(c);
            messages::aggregate_ism(c)
        }
        "I04" => {
            isms::i04(c);
            messages::routing_ism(c)
        }
        "I05" => {
            isms::i05(c);
            messages::pausable(c)
        }
        "H01" => hooks::h01(c),
        "H02" => {
            hooks::h02(c);
            messages::routing_hooks(c)
        }
        "H03" => {
            hooks::h03(c);
            messages::aggregate_hook(c)
        }
        "H04" => {
            hooks::h04(c);
            messages::fee_hook(c)
        }
        "G01" => {
            igp::g01(c);
            messages::paymaster(c)
        }
        "G02" => igp::g02(c),
        "G03" => igp::g03(c),
        "V01" => va::v01(c),
        "W01" => warp::w01(c),
        "W02" => warp2::w02(c),
        "W03" => warp2::w03(c),
        "W04" => warp2::w04(c),
        "A01" => admin::a01(c),
        "A02" => admin::a02(c),
        "A03" => admin::a03(c),
        "A04" => admin::a04(c),
        "A05" => create::a05(c),
        "E01" => events::e01(c),
        "X01" => e2e::x01(c),
        "X02" => compose::x02(c),
        "X03" => stack::x03(c),
        _ => {
            eprintln!("no check for {id}");
            std::process::exit(2);
        }
    }
}

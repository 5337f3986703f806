use crate::runner::Prop;
use std::sync::OnceLock;

pub mod c13;
pub mod dates;
pub mod edit;
pub mod host;
pub mod inject;
pub mod lang;
pub mod lit;
pub mod matching;
pub mod msgtests;
pub mod outgoing;
pub mod msgvars;
pub mod places;
pub mod wildp;

pub fn all() -> &'static [Prop] {
    static ALL: OnceLock<Vec<Prop>> = OnceLock::new();
    ALL.get_or_init(|| {
        let mut v = vec![c13::prop()];
        v.extend(lang::props());
        v.extend(wildp::props());
        v.extend(lit::props());
        v.extend(edit::props());
        v.extend(matching::props());
        v.extend(msgtests::props());
        v.extend(dates::props());
        v.extend(outgoing::props());
        v.extend(inject::props());
        v.extend(host::props());
        v.extend(msgvars::props());
        v
    })
}

pub mod boxing;
pub mod codec;
pub mod generic;
pub mod plugin;
pub mod registry;
pub mod reject;
pub mod robust;
pub mod scale;
pub mod typed;
pub mod validate;
use crate::runner::Check;
pub fn all() -> Vec<&'static Check> {
    vec![
        &codec::C01, &codec::C02, &codec::C03, &codec::C04, &registry::C05, &validate::C06, &validate::C07, &reject::C08, &robust::C09, &plugin::C10, &plugin::C11, &plugin::C12, &plugin::C13, &codec::C14, &codec::C15, &robust::C16, &codec::C17, &codec::C18, &typed::C19, &scale::C20, &boxing::C21, &generic::C22, &reject::C23,
    ]
}

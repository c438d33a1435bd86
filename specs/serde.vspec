@note what reading a message back gives (P23)
@module msg
use crate::serde;
use crate::serde::{Deserialize as _, de::Error as _};
@module msg::_serde
use crate::vser_base::*;
use crate::vt::*;
broadcast use {crate::vp::group_str, crate::vt::group_text, crate::vt::ax_cow_ref};
use crate::vser::*;
@module msg::_serde|Subscriber as Deserialize
  open spec fn reads(s: SV, r: Option<Self>) -> bool { match r { Some(x) => de_Subscriber(s) == Some(x.v()), None => de_Subscriber(s) is None } }
@fn msg::_serde|Subscriber as Deserialize|deserialize
@hoist
@start
  proof { reveal(de_Subscriber); }

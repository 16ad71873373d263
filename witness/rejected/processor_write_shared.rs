//! rejected with E0596: writing to a processor needs exclusive access
#![allow(dead_code, unused)]
use std::io::{Read, Write};
use ur20::ur20_1com_232_485_422::{MessageProcessor, ProcessInput, ProcessOutput};
use ur20::ur20_fbc_mod_tcp::Coupler;
use ur20::{Address, ChannelValue};
fn f(p: &MessageProcessor, b: &[u8]) { let _ = p.write(b); }

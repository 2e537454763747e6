//! The generic code of poreader is compiled where it is used.  This crate uses it and nothing
//! else, so that it can be built with coverage callbacks and the harness without.

use poreader::{error::Error, unit::Unit, PoParser, PoReader};
use std::io::Read;

pub type Reader<'p, 'a> = PoReader<'p, Box<dyn Read + 'a>>;

#[inline(never)]
pub fn open<'p, 'a>(p: &'p PoParser, r: Box<dyn Read + 'a>) -> Result<Reader<'p, 'a>, Error> {
    p.parse(r)
}

#[inline(never)]
pub fn next(r: &mut Reader<'_, '_>) -> Option<Result<Unit, Error>> {
    r.next()
}

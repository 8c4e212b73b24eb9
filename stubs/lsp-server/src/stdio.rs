use crate::Connection;
use std::{cell::RefCell, io};
thread_local! { static FED: RefCell<Option<Connection>> = const { RefCell::new(None) }; }
/// what `Connection::stdio` hands out next
pub fn feed(c: Connection) { FED.with(|f| *f.borrow_mut() = Some(c)) }
pub(crate) fn take() -> (Connection, IoThreads) { (FED.with(|f| f.borrow_mut().take()).expect("no conversation"), IoThreads(())) }
pub struct IoThreads(());
impl IoThreads { pub fn join(self) -> io::Result<()> { Ok(()) } }

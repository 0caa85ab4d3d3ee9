//! Interface of `clio` as /repo uses it (signatures only; nothing here runs).
use std::io::{Read, Result, Write};
use std::path::Path;
#[derive(Debug, Clone)]
pub struct Input(());
#[derive(Debug, Clone)]
pub struct Output(());
impl Input {
    pub fn path(&self) -> &Path {
        loop {}
    }
}
impl Output {
    pub fn path(&self) -> &Path {
        loop {}
    }
    pub fn finish(self) -> Result<()> {
        loop {}
    }
}
impl Read for Input {
    fn read(&mut self, _: &mut [u8]) -> Result<usize> {
        loop {}
    }
}
impl Write for Output {
    fn write(&mut self, _: &[u8]) -> Result<usize> {
        loop {}
    }
    fn flush(&mut self) -> Result<()> {
        loop {}
    }
}
impl std::str::FromStr for Input {
    type Err = std::io::Error;
    fn from_str(_: &str) -> Result<Self> {
        loop {}
    }
}
impl std::str::FromStr for Output {
    type Err = std::io::Error;
    fn from_str(_: &str) -> Result<Self> {
        loop {}
    }
}

//! A stand-in for dialoguer: questions are answered from a script.
use std::fmt::{Debug, Display, Formatter};
use std::io;
use std::marker::PhantomData;
use std::str::FromStr;

#[derive(Debug)]
pub enum Error {
    IO(io::Error),
}
impl Display for Error {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        let Error::IO(e) = self;
        write!(f, "IO error: {e}")
    }
}
impl std::error::Error for Error {}
impl From<io::Error> for Error {
    fn from(e: io::Error) -> Self {
        Error::IO(e)
    }
}
pub type Result<T = ()> = std::result::Result<T, Error>;

pub mod theme {
    pub trait Theme {}
    #[derive(Default, Clone, Debug)]
    pub struct ColorfulTheme(());
    impl Theme for ColorfulTheme {}
    #[derive(Default, Clone, Debug)]
    pub struct SimpleTheme;
    impl Theme for SimpleTheme {}
}
pub mod stub {
    use super::*;
    #[derive(Clone, Debug, PartialEq)]
    pub enum Say {
        Yes,
        No,
        Type(String),
        Pick(String),
        /// The terminal fails, or the question is left.
        Leave,
    }
    static mut SCRIPT: Vec<Say> = Vec::new();
    static mut ASTRAY: bool = false;
    fn script_mut() -> &'static mut Vec<Say> {
        unsafe { &mut *std::ptr::addr_of_mut!(SCRIPT) }
    }
    pub fn script(s: Vec<Say>) {
        *script_mut() = s;
        unsafe { ASTRAY = false };
    }
    pub fn left() -> usize {
        script_mut().len()
    }
    /// Whether something was asked which the script has no answer for.
    pub fn astray() -> bool {
        unsafe { ASTRAY }
    }
    pub(crate) fn answer<T>(f: impl FnOnce(&Say) -> Option<T>) -> Result<T> {
        let s = script_mut();
        if !s.is_empty() {
            let a = s.remove(0);
            if a == Say::Leave {
                return Err(Error::IO(io::ErrorKind::Interrupted.into()));
            }
            if let Some(x) = f(&a) {
                return Ok(x);
            }
        }
        unsafe { ASTRAY = true };
        Err(Error::IO(io::ErrorKind::UnexpectedEof.into()))
    }
}
use stub::{answer, Say};
use theme::Theme;

#[derive(Clone)]
pub struct Confirm<'a>(PhantomData<&'a ()>);
impl Confirm<'static> {
    pub fn new() -> Self {
        Confirm(PhantomData)
    }
}
impl<'a> Confirm<'a> {
    pub fn with_theme(_: &'a dyn Theme) -> Self {
        Confirm(PhantomData)
    }
    pub fn with_prompt(self, _: impl Into<String>) -> Self {
        self
    }
    pub fn default(self, _: bool) -> Self {
        self
    }
    pub fn show_default(self, _: bool) -> Self {
        self
    }
    pub fn report(self, _: bool) -> Self {
        self
    }
    pub fn wait_for_newline(self, _: bool) -> Self {
        self
    }
    pub fn interact(self) -> Result<bool> {
        answer(|a| match a {
            Say::Yes => Some(true),
            Say::No => Some(false),
            _ => None,
        })
    }
    pub fn interact_opt(self) -> Result<Option<bool>> {
        self.interact().map(Some)
    }
}
macro_rules! select {
    ($($n:ident)*) => { $(
        #[derive(Clone)]
        pub struct $n<'a>(Vec<String>, PhantomData<&'a ()>);
        impl $n<'static> {
            pub fn new() -> Self {
                $n(vec![], PhantomData)
            }
        }
        impl<'a> $n<'a> {
            pub fn with_theme(_: &'a dyn Theme) -> Self {
                $n(vec![], PhantomData)
            }
            pub fn with_prompt(self, _: impl Into<String>) -> Self {
                self
            }
            pub fn item<T: ToString>(mut self, t: T) -> Self {
                self.0.push(t.to_string());
                self
            }
            pub fn items<T: ToString>(mut self, t: &[T]) -> Self {
                self.0.extend(t.iter().map(ToString::to_string));
                self
            }
            pub fn default(self, _: usize) -> Self {
                self
            }
            pub fn clear(self, _: bool) -> Self {
                self
            }
            pub fn report(self, _: bool) -> Self {
                self
            }
            pub fn max_length(self, _: usize) -> Self {
                self
            }
            pub fn interact(self) -> Result<usize> {
                answer(|a| match a {
                    Say::Pick(x) => self.0.iter().position(|i| i == x),
                    _ => None,
                })
            }
            pub fn interact_opt(self) -> Result<Option<usize>> {
                self.interact().map(Some)
            }
        }
    )* };
}
select!(FuzzySelect Select);

pub struct Input<'a, T> {
    default: Option<T>,
    empty: bool,
    validator: Option<Box<dyn FnMut(&T) -> Option<String> + 'a>>,
}
impl<T> Input<'static, T> {
    pub fn new() -> Self {
        Input { default: None, empty: false, validator: None }
    }
}
impl<'a, T> Input<'a, T> {
    pub fn with_theme(_: &'a dyn Theme) -> Self {
        Input { default: None, empty: false, validator: None }
    }
    pub fn with_prompt(self, _: impl Into<String>) -> Self {
        self
    }
    pub fn default(mut self, t: T) -> Self {
        self.default = Some(t);
        self
    }
    pub fn show_default(self, _: bool) -> Self {
        self
    }
    pub fn report(self, _: bool) -> Self {
        self
    }
    pub fn allow_empty(mut self, e: bool) -> Self {
        self.empty = e;
        self
    }
    pub fn validate_with<V: FnMut(&T) -> std::result::Result<(), E> + 'a, E: ToString>(mut self, mut v: V) -> Self {
        self.validator = Some(Box::new(move |t| v(t).err().map(|e| e.to_string())));
        self
    }
}
impl<T: Clone + ToString + FromStr> Input<'_, T>
where
    T::Err: ToString,
{
    /// What cannot be read is asked for again.
    pub fn interact(mut self) -> Result<T> {
        loop {
            let s = answer(|a| match a {
                Say::Type(t) => Some(t.clone()),
                _ => None,
            })?;
            if s.is_empty() {
                match &self.default {
                    Some(d) => return Ok(d.clone()),
                    None if !self.empty => continue,
                    None => {}
                }
            }
            match s.parse::<T>() {
                Ok(t) => match self.validator.as_mut().and_then(|v| v(&t)) {
                    None => return Ok(t),
                    Some(_) => continue,
                },
                Err(e) => {
                    let _ = e.to_string();
                }
            }
        }
    }
    pub fn interact_text(self) -> Result<T> {
        self.interact()
    }
}

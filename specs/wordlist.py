"""Words, and lists of words"""
from build import Module, struct
from extract import Fn, Loop

SMALL = "a SmallVec is treated as a Vec"


def module():
    m = Module("wordlist", "words.rs")
    m.text(r"""
use super::words::*;
use super::expression::*;

pub type Tranche = u8;
""")
    struct(m, "Word", rules=[("#[cfg_attr($x)]", "", "an attribute"), ("SmallVec<[Char; 16]>", "Vec<Char>", SMALL)])
    m.text(r"""
pub trait WordListRef<'word> {
    spec fn words(&self) -> Seq<&'word Word>;
    fn size(&self) -> (r: usize) ensures r == self.words().len();
    fn borrow(&self, index: usize) -> (r: &'word Word) requires index < self.words().len() ensures r == self.words()[index as int];
}
""")
    m.impl("impl<'word, 'a> WordListRef<'word> for &'a [&'word Word]", {"size": Fn(ret=None), "borrow": Fn(ret=None)},
           extra="    open spec fn words(&self) -> Seq<&'word Word> { self@ }\n")
    m.impl("impl<'word> WordListRef<'word> for &'word [Word]", {"size": Fn(ret=None), "borrow": Fn(ret=None)},
           extra="    open spec fn words(&self) -> Seq<&'word Word> { Seq::new(self@.len(), |i: int| &self@[i]) }\n")
    return m

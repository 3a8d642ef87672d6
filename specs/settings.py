"""A query as the parser leaves it"""
from build import Module, struct


def module():
    m = Module("settings", "parser.rs")
    m.text("""
use super::words::*;
use super::parser::*;
use super::wordlist::*;

/// (stands for the map of the macros, which is not used)
#[verifier::external_body]
pub struct MacroMap { }
""")
    struct(m, "QueryOptions")
    struct(m, "QueryAst", rules=[("IndexMap<String, String>", "MacroMap", "the map of the macros is represented by a type without operations")])
    return m

use dice_bytecode::Bytecode;
use dice_compiler::compiler::Compiler;
use dice_core::error::Error;
use dice_core::source::{Source, SourceKind};

pub fn source(text: &str, module: bool) -> Source {
    Source::new(text, if module { SourceKind::Module } else { SourceKind::Script })
}
pub fn compile(text: &str, module: bool) -> Result<Result<Bytecode, Error>, String> {
    let text = text.to_string();
    std::panic::catch_unwind(move || Compiler::compile_source(source(&text, module))).map_err(|_| "panic".to_string())
}
pub fn debug(e: &Error) -> String {
    format!("{:?}", e)
}

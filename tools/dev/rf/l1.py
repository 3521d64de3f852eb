import os; os.environ['MODS']='lexer'
import sys; sys.path.insert(0,'/tmp/rf')
from run import *
M='ratel/src/lexer/mod.rs'; U='ratel/src/lexer/util.rs'; B='ratel/src/lexer/labels.rs'
rf('OK keywords by table',[(B,"""    match_label!(lex [b'r' b'e' b'a' b'k' => Break]);

    lex.read_label();
    lex.token = Identifier;""","""    lex.bump();
    lex.read_label();
    lex.token = match lex.token_as_str() {
        "break" => Break,
        _ => Identifier,
    };""")])

rf('OK all keywords by table',[(B,'''    bump''','''''')] if 0 else [(B,'''pub const IDT: ByteHandler = Some(|lex| {
    lex.bump();
    lex.read_label();
    lex.token = Identifier;
});''','''pub const IDT: ByteHandler = Some(|lex| {
    lex.bump();
    lex.read_label();
    lex.token = keyword(lex.token_as_str()).unwrap_or(Identifier);
});

fn keyword(s: &str) -> Option<::lexer::Token> {
    Some(match s {
        "break" => Break,
        "const" => DeclarationConst,
        "continue" => Continue,
        "case" => Case,
        "catch" => Catch,
        "class" => Class,
        _ => return None,
    })
}'''),(M,"L_B, L_C, L_D","IDT, IDT, L_D")])

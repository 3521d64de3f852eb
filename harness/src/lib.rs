//! Roots for the fact extractor.  Nothing in here is ever executed: the driver
//! only needs monomorphic instances of every public entry point of /repo.
#![allow(dead_code)]
use ratel::Module;
use ratel_visitor::{Visitable, Visitor};
use serde::ser::*;

pub fn root_parse(s: &str) -> bool { ratel::parse(s).is_ok() }
pub fn root_codegen<'a>(m: &'a Module<'a>) -> (String, String) {
    (ratel_codegen::codegen(m, true), ratel_codegen::codegen(m, false))
}

/// A visitor that overrides nothing: the hooks stay calls of the trait's methods.
pub struct Probe(pub usize);
impl<'ast> Visitor<'ast> for Probe {}
pub fn root_visit<'a>(m: &'a Module<'a>, p: &mut Probe) { m.visit_with(p) }

pub fn root_scope<'a>(m: &'a Module<'a>) -> bool { ratel_transformer::scope::analyze(m).parent.is_none() }
pub fn root_transform<'a>(m: &'a mut Module<'a>) { ratel_transformer::transform(m) }
pub fn root_swap<'a>(c: &ratel_transformer::TransformerCtxt<'a>, n: ratel::ast::ExpressionNode<'a>, e: ratel::ast::Expression<'a>) { c.swap(&n, e) }

/// A serializer whose methods only mark events.
pub struct Rec;
pub struct RecError;
impl std::fmt::Debug for RecError { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
impl std::fmt::Display for RecError { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for RecError {}
impl serde::ser::Error for RecError { fn custom<T: std::fmt::Display>(_: T) -> Self { RecError } }
type R = Result<(), RecError>;
macro_rules! prim { ($($n:ident($t:ty)),*) => { $( #[inline(never)] fn $n(self, _v: $t) -> R { Ok(()) } )* } }
impl Serializer for Rec {
    type Ok = (); type Error = RecError;
    type SerializeSeq = Rec; type SerializeTuple = Rec; type SerializeTupleStruct = Rec; type SerializeTupleVariant = Rec;
    type SerializeMap = Rec; type SerializeStruct = Rec; type SerializeStructVariant = Rec;
    prim!(serialize_bool(bool), serialize_i8(i8), serialize_i16(i16), serialize_i32(i32), serialize_i64(i64), serialize_u8(u8),
      serialize_u16(u16), serialize_u32(u32), serialize_u64(u64), serialize_f32(f32), serialize_f64(f64), serialize_char(char),
      serialize_str(&str), serialize_bytes(&[u8]), serialize_unit_struct(&'static str));
    fn serialize_none(self) -> R { Ok(()) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> R { v.serialize(self) }
    fn serialize_unit(self) -> R { Ok(()) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> R { Ok(()) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> R { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, v: &T) -> R { v.serialize(self) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Rec, RecError> { Ok(Rec) }
    fn serialize_tuple(self, _: usize) -> Result<Rec, RecError> { Ok(Rec) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Rec, RecError> { Ok(Rec) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Rec, RecError> { Ok(Rec) }
    fn serialize_map(self, _: Option<usize>) -> Result<Rec, RecError> { Ok(Rec) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Rec, RecError> { Ok(Rec) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Rec, RecError> { Ok(Rec) }
}
impl SerializeSeq for Rec { type Ok = (); type Error = RecError;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> R { v.serialize(Rec) } fn end(self) -> R { Ok(()) } }
impl SerializeTuple for Rec { type Ok = (); type Error = RecError;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> R { v.serialize(Rec) } fn end(self) -> R { Ok(()) } }
impl SerializeTupleStruct for Rec { type Ok = (); type Error = RecError;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> R { v.serialize(Rec) } fn end(self) -> R { Ok(()) } }
impl SerializeTupleVariant for Rec { type Ok = (); type Error = RecError;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> R { v.serialize(Rec) } fn end(self) -> R { Ok(()) } }
impl SerializeMap for Rec { type Ok = (); type Error = RecError;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> R { v.serialize(Rec) }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> R { v.serialize(Rec) } fn end(self) -> R { Ok(()) } }
impl SerializeStruct for Rec { type Ok = (); type Error = RecError;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> R { v.serialize(Rec) } fn end(self) -> R { Ok(()) } }
impl SerializeStructVariant for Rec { type Ok = (); type Error = RecError;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> R { v.serialize(Rec) } fn end(self) -> R { Ok(()) } }
pub fn root_serialize(m: &Module) -> bool { m.serialize(Rec).is_ok() }
pub fn root_error(e: &ratel::error::ParseError, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Display::fmt(e, f) }
pub fn root_error_debug(e: &ratel::error::ParseError, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Debug::fmt(e, f) }

/// Equality and the debug listing of trees
pub fn root_equal<'a>(a: &ratel::ast::StatementList<'a>, b: &ratel::ast::StatementList<'a>) -> bool { a == b }
pub fn root_listing<'a>(a: &ratel::ast::StatementList<'a>, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Debug::fmt(a, f) }
macro_rules! listing { ($($name:ident: $t:ty),* $(,)?) => { $(pub fn $name<'a>(a: &$t, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Debug::fmt(a, f) })* } }
pub mod listing {
    use ratel::ast::*;
    use ratel::ast::expression::*;
    use ratel::ast::statement::*;
    listing! {
        l_statement: StatementNode<'a>, l_expression: ExpressionNode<'a>, l_pattern: Node<'a, Pattern<'a>>, l_property: PropertyNode<'a>, l_key: Node<'a, PropertyKey<'a>>,
        l_identifier: IdentifierNode<'a>, l_block: BlockNode<'a, Statement<'a>>, l_cases: BlockNode<'a, SwitchCase<'a>>, l_members: BlockNode<'a, ClassMember<'a>>,
        l_member: Node<'a, ClassMember<'a>>, l_method: Node<'a, Method<'a>>, l_kind: MethodKind, l_literal: Literal<'a>, l_operator: OperatorKind,
        l_fun: Function<'a, OptionalName<'a>>, l_fun2: Function<'a, MandatoryName<'a>>, l_class: Class<'a, OptionalName<'a>>, l_class2: Class<'a, MandatoryName<'a>>,
        l_optname: OptionalName<'a>, l_name: MandatoryName<'a>, l_noname: EmptyName, l_arrow: ArrowExpression<'a>, l_arrowbody: ArrowBody<'a>, l_object: ObjectExpression<'a>,
        l_this: ThisExpression, l_sequence: SequenceExpression<'a>, l_array: ArrayExpression<'a>, l_mem: MemberExpression<'a>, l_cmem: ComputedMemberExpression<'a>,
        l_meta: MetaPropertyExpression<'a>, l_call: CallExpression<'a>, l_binary: BinaryExpression<'a>, l_prefix: PrefixExpression<'a>, l_postfix: PostfixExpression<'a>,
        l_conditional: ConditionalExpression<'a>, l_template: Node<'a, TemplateLiteral<'a>>, l_tagged: TaggedTemplateExpression<'a>, l_spread: SpreadExpression<'a>,
        l_declarator: Node<'a, Declarator<'a>>, l_declkind: DeclarationKind, l_declaration: DeclarationStatement<'a>, l_return: ReturnStatement<'a>, l_break: BreakStatement<'a>,
        l_continue: ContinueStatement<'a>, l_throw: ThrowStatement<'a>, l_if: IfStatement<'a>, l_while: WhileStatement<'a>, l_do: DoStatement<'a>, l_for: ForStatement<'a>,
        l_forinit: Node<'a, ForInit<'a>>, l_forin: ForInStatement<'a>, l_forof: ForOfStatement<'a>, l_try: TryStatement<'a>, l_catch: Node<'a, CatchClause<'a>>,
        l_labeled: LabeledStatement<'a>, l_switch: SwitchStatement<'a>, l_case: Node<'a, SwitchCase<'a>>, l_import: ImportDeclaration<'a>, l_spec: Node<'a, ForImportSpecifier<'a>>,
        i_statement: Statement<'a>, i_expression: Expression<'a>, i_pattern: Pattern<'a>, i_property: Property<'a>, i_key: PropertyKey<'a>, i_block: Block<'a, Statement<'a>>,
        i_cases: Block<'a, SwitchCase<'a>>, i_members: Block<'a, ClassMember<'a>>, i_member: ClassMember<'a>, i_method: Method<'a>, i_template: TemplateLiteral<'a>,
        i_declarator: Declarator<'a>, i_forinit: ForInit<'a>, i_catch: CatchClause<'a>, i_case: SwitchCase<'a>, i_spec: ForImportSpecifier<'a>, i_import: ImportSpecifier<'a>,
        i_default: ImportDefaultSpecifier<'a>, i_namespace: ImportNamespaceSpecifier<'a>, l_module: ratel::Module<'a>,
    }
}
#[cfg(feature = "extra")]
pub mod extra {
    use ratel::ast::{OperatorKind, OperatorCategory};
    pub fn x_prefix(o: &OperatorKind) -> bool { o.prefix() }
    pub fn x_infix(o: &OperatorKind) -> bool { o.infix() }
    pub fn x_assignment(o: &OperatorKind) -> bool { o.assignment() }
    pub fn x_category(o: &OperatorKind) -> OperatorCategory { o.category() }
    pub fn x_power(o: &OperatorKind) -> u8 { o.binding_power() }
    pub fn x_text(o: &OperatorKind) -> &'static str { o.as_str() }
    pub fn x_token(t: ratel::lexer::Token) -> Option<OperatorKind> { OperatorKind::from_token(t) }
    pub fn x_error(e: &ratel::error::Error, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Debug::fmt(e, f) }
    pub fn x_same(a: &ratel::error::Error, b: &ratel::error::Error) -> bool { a == b }
    pub fn x_scope<'a>(s: &ratel_transformer::scope::Scope<'a>, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Debug::fmt(s, f) }
    pub fn x_same_scope<'a>(a: &'a ratel_transformer::scope::Scope<'a>, b: &'a ratel_transformer::scope::Scope<'a>) -> bool { a == b }
}

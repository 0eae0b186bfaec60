// written by tools/gen_ast.py
//@@ source crates/air_r_syntax/src/generated/nodes.rs
//@@ item struct RArgument
//@@   public
//@@ end
impl Clone for RArgument {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RArgumentFields
//@@   public
//@@ end
impl RArgument {
//@@ item fn RArgument::name_clause
//@@   ret r
//@@ + spec
    ensures opt_node(self.syntax, 0, r),
//@@ end
//@@ item fn RArgument::value
//@@   ret r
//@@ + spec
    ensures opt_node(self.syntax, 1, r),
//@@ end
//@@ item fn RArgument::as_fields
//@@   ret r
//@@ + spec
    ensures opt_node(self.syntax, 0, r.name_clause), opt_node(self.syntax, 1, r.value),
//@@ end
}
impl AstNode for RArgument {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_ARGUMENT }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RArgument<AstNode>::can_cast
//@@ end
//@@ item fn RArgument<AstNode>::cast
//@@ end
//@@ item fn RArgument<AstNode>::syntax
//@@ end
//@@ item fn RArgument<AstNode>::into_syntax
//@@ end
}
//@@ item struct RArgumentNameClause
//@@   public
//@@ end
impl Clone for RArgumentNameClause {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RArgumentNameClauseFields
//@@   public
//@@ end
impl RArgumentNameClause {
//@@ item fn RArgumentNameClause::name
//@@   ret r
//@@ + spec
    ensures is_node(self.syntax, 0, r),
//@@ end
//@@ item fn RArgumentNameClause::eq_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 1, r),
//@@ end
//@@ item fn RArgumentNameClause::as_fields
//@@   ret r
//@@ + spec
    ensures is_node(self.syntax, 0, r.name), is_token(self.syntax, 1, r.eq_token),
//@@ end
}
impl AstNode for RArgumentNameClause {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_ARGUMENT_NAME_CLAUSE }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RArgumentNameClause<AstNode>::can_cast
//@@ end
//@@ item fn RArgumentNameClause<AstNode>::cast
//@@ end
//@@ item fn RArgumentNameClause<AstNode>::syntax
//@@ end
//@@ item fn RArgumentNameClause<AstNode>::into_syntax
//@@ end
}
//@@ item struct RBinaryExpression
//@@   public
//@@ end
impl Clone for RBinaryExpression {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RBinaryExpressionFields
//@@   public
//@@ end
impl RBinaryExpression {
//@@ item fn RBinaryExpression::left
//@@   ret r
//@@ + spec
    ensures is_node(self.syntax, 0, r),
//@@ end
//@@ item fn RBinaryExpression::operator
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 1, r),
//@@ end
//@@ item fn RBinaryExpression::right
//@@   ret r
//@@ + spec
    ensures is_node(self.syntax, 2, r),
//@@ end
//@@ item fn RBinaryExpression::as_fields
//@@   ret r
//@@ + spec
    ensures is_node(self.syntax, 0, r.left), is_token(self.syntax, 1, r.operator), is_node(self.syntax, 2, r.right),
//@@ end
}
impl AstNode for RBinaryExpression {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_BINARY_EXPRESSION }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RBinaryExpression<AstNode>::can_cast
//@@ end
//@@ item fn RBinaryExpression<AstNode>::cast
//@@ end
//@@ item fn RBinaryExpression<AstNode>::syntax
//@@ end
//@@ item fn RBinaryExpression<AstNode>::into_syntax
//@@ end
}
//@@ item struct RBracedExpressions
//@@   public
//@@ end
impl Clone for RBracedExpressions {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RBracedExpressionsFields
//@@   public
//@@ end
impl RBracedExpressions {
//@@ item fn RBracedExpressions::l_curly_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r),
//@@ end
//@@ item fn RBracedExpressions::expressions
//@@   ret r
//@@ + spec
    ensures is_list(self.syntax, 1, r),
//@@ end
//@@ item fn RBracedExpressions::r_curly_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 2, r),
//@@ end
//@@ item fn RBracedExpressions::as_fields
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r.l_curly_token), is_list(self.syntax, 1, r.expressions), is_token(self.syntax, 2, r.r_curly_token),
//@@ end
}
impl AstNode for RBracedExpressions {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_BRACED_EXPRESSIONS }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RBracedExpressions<AstNode>::can_cast
//@@ end
//@@ item fn RBracedExpressions<AstNode>::cast
//@@ end
//@@ item fn RBracedExpressions<AstNode>::syntax
//@@ end
//@@ item fn RBracedExpressions<AstNode>::into_syntax
//@@ end
}
//@@ item struct RBreakExpression
//@@   public
//@@ end
impl Clone for RBreakExpression {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RBreakExpressionFields
//@@   public
//@@ end
impl RBreakExpression {
//@@ item fn RBreakExpression::break_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r),
//@@ end
//@@ item fn RBreakExpression::as_fields
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r.break_token),
//@@ end
}
impl AstNode for RBreakExpression {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_BREAK_EXPRESSION }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RBreakExpression<AstNode>::can_cast
//@@ end
//@@ item fn RBreakExpression<AstNode>::cast
//@@ end
//@@ item fn RBreakExpression<AstNode>::syntax
//@@ end
//@@ item fn RBreakExpression<AstNode>::into_syntax
//@@ end
}
//@@ item struct RCall
//@@   public
//@@ end
impl Clone for RCall {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RCallFields
//@@   public
//@@ end
impl RCall {
//@@ item fn RCall::function
//@@   ret r
//@@ + spec
    ensures is_node(self.syntax, 0, r),
//@@ end
//@@ item fn RCall::arguments
//@@   ret r
//@@ + spec
    ensures is_node(self.syntax, 1, r),
//@@ end
//@@ item fn RCall::as_fields
//@@   ret r
//@@ + spec
    ensures is_node(self.syntax, 0, r.function), is_node(self.syntax, 1, r.arguments),
//@@ end
}
impl AstNode for RCall {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_CALL }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RCall<AstNode>::can_cast
//@@ end
//@@ item fn RCall<AstNode>::cast
//@@ end
//@@ item fn RCall<AstNode>::syntax
//@@ end
//@@ item fn RCall<AstNode>::into_syntax
//@@ end
}
//@@ item struct RCallArguments
//@@   public
//@@ end
impl Clone for RCallArguments {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RCallArgumentsFields
//@@   public
//@@ end
impl RCallArguments {
//@@ item fn RCallArguments::l_paren_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r),
//@@ end
//@@ item fn RCallArguments::items
//@@   ret r
//@@ + spec
    ensures is_list(self.syntax, 1, r),
//@@ end
//@@ item fn RCallArguments::r_paren_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 2, r),
//@@ end
//@@ item fn RCallArguments::as_fields
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r.l_paren_token), is_list(self.syntax, 1, r.items), is_token(self.syntax, 2, r.r_paren_token),
//@@ end
}
impl AstNode for RCallArguments {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_CALL_ARGUMENTS }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RCallArguments<AstNode>::can_cast
//@@ end
//@@ item fn RCallArguments<AstNode>::cast
//@@ end
//@@ item fn RCallArguments<AstNode>::syntax
//@@ end
//@@ item fn RCallArguments<AstNode>::into_syntax
//@@ end
}
//@@ item struct RComplexValue
//@@   public
//@@ end
impl Clone for RComplexValue {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RComplexValueFields
//@@   public
//@@ end
impl RComplexValue {
//@@ item fn RComplexValue::value_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r),
//@@ end
//@@ item fn RComplexValue::as_fields
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r.value_token),
//@@ end
}
impl AstNode for RComplexValue {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_COMPLEX_VALUE }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RComplexValue<AstNode>::can_cast
//@@ end
//@@ item fn RComplexValue<AstNode>::cast
//@@ end
//@@ item fn RComplexValue<AstNode>::syntax
//@@ end
//@@ item fn RComplexValue<AstNode>::into_syntax
//@@ end
}
//@@ item struct RDotDotI
//@@   public
//@@ end
impl Clone for RDotDotI {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RDotDotIFields
//@@   public
//@@ end
impl RDotDotI {
//@@ item fn RDotDotI::value_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r),
//@@ end
//@@ item fn RDotDotI::as_fields
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r.value_token),
//@@ end
}
impl AstNode for RDotDotI {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_DOT_DOT_I }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RDotDotI<AstNode>::can_cast
//@@ end
//@@ item fn RDotDotI<AstNode>::cast
//@@ end
//@@ item fn RDotDotI<AstNode>::syntax
//@@ end
//@@ item fn RDotDotI<AstNode>::into_syntax
//@@ end
}
//@@ item struct RDots
//@@   public
//@@ end
impl Clone for RDots {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RDotsFields
//@@   public
//@@ end
impl RDots {
//@@ item fn RDots::value_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r),
//@@ end
//@@ item fn RDots::as_fields
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r.value_token),
//@@ end
}
impl AstNode for RDots {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_DOTS }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RDots<AstNode>::can_cast
//@@ end
//@@ item fn RDots<AstNode>::cast
//@@ end
//@@ item fn RDots<AstNode>::syntax
//@@ end
//@@ item fn RDots<AstNode>::into_syntax
//@@ end
}
//@@ item struct RDoubleValue
//@@   public
//@@ end
impl Clone for RDoubleValue {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RDoubleValueFields
//@@   public
//@@ end
impl RDoubleValue {
//@@ item fn RDoubleValue::value_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r),
//@@ end
//@@ item fn RDoubleValue::as_fields
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r.value_token),
//@@ end
}
impl AstNode for RDoubleValue {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_DOUBLE_VALUE }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RDoubleValue<AstNode>::can_cast
//@@ end
//@@ item fn RDoubleValue<AstNode>::cast
//@@ end
//@@ item fn RDoubleValue<AstNode>::syntax
//@@ end
//@@ item fn RDoubleValue<AstNode>::into_syntax
//@@ end
}
//@@ item struct RElseClause
//@@   public
//@@ end
impl Clone for RElseClause {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RElseClauseFields
//@@   public
//@@ end
impl RElseClause {
//@@ item fn RElseClause::else_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r),
//@@ end
//@@ item fn RElseClause::alternative
//@@   ret r
//@@ + spec
    ensures is_node(self.syntax, 1, r),
//@@ end
//@@ item fn RElseClause::as_fields
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r.else_token), is_node(self.syntax, 1, r.alternative),
//@@ end
}
impl AstNode for RElseClause {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_ELSE_CLAUSE }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RElseClause<AstNode>::can_cast
//@@ end
//@@ item fn RElseClause<AstNode>::cast
//@@ end
//@@ item fn RElseClause<AstNode>::syntax
//@@ end
//@@ item fn RElseClause<AstNode>::into_syntax
//@@ end
}
//@@ item struct RExtractExpression
//@@   public
//@@ end
impl Clone for RExtractExpression {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RExtractExpressionFields
//@@   public
//@@ end
impl RExtractExpression {
//@@ item fn RExtractExpression::left
//@@   ret r
//@@ + spec
    ensures is_node(self.syntax, 0, r),
//@@ end
//@@ item fn RExtractExpression::operator
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 1, r),
//@@ end
//@@ item fn RExtractExpression::right
//@@   ret r
//@@ + spec
    ensures is_node(self.syntax, 2, r),
//@@ end
//@@ item fn RExtractExpression::as_fields
//@@   ret r
//@@ + spec
    ensures is_node(self.syntax, 0, r.left), is_token(self.syntax, 1, r.operator), is_node(self.syntax, 2, r.right),
//@@ end
}
impl AstNode for RExtractExpression {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_EXTRACT_EXPRESSION }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RExtractExpression<AstNode>::can_cast
//@@ end
//@@ item fn RExtractExpression<AstNode>::cast
//@@ end
//@@ item fn RExtractExpression<AstNode>::syntax
//@@ end
//@@ item fn RExtractExpression<AstNode>::into_syntax
//@@ end
}
//@@ item struct RFalseExpression
//@@   public
//@@ end
impl Clone for RFalseExpression {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RFalseExpressionFields
//@@   public
//@@ end
impl RFalseExpression {
//@@ item fn RFalseExpression::false_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r),
//@@ end
//@@ item fn RFalseExpression::as_fields
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r.false_token),
//@@ end
}
impl AstNode for RFalseExpression {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_FALSE_EXPRESSION }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RFalseExpression<AstNode>::can_cast
//@@ end
//@@ item fn RFalseExpression<AstNode>::cast
//@@ end
//@@ item fn RFalseExpression<AstNode>::syntax
//@@ end
//@@ item fn RFalseExpression<AstNode>::into_syntax
//@@ end
}
//@@ item struct RForStatement
//@@   public
//@@ end
impl Clone for RForStatement {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RForStatementFields
//@@   public
//@@ end
impl RForStatement {
//@@ item fn RForStatement::for_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r),
//@@ end
//@@ item fn RForStatement::l_paren_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 1, r),
//@@ end
//@@ item fn RForStatement::variable
//@@   ret r
//@@ + spec
    ensures is_node(self.syntax, 2, r),
//@@ end
//@@ item fn RForStatement::in_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 3, r),
//@@ end
//@@ item fn RForStatement::sequence
//@@   ret r
//@@ + spec
    ensures is_node(self.syntax, 4, r),
//@@ end
//@@ item fn RForStatement::r_paren_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 5, r),
//@@ end
//@@ item fn RForStatement::body
//@@   ret r
//@@ + spec
    ensures is_node(self.syntax, 6, r),
//@@ end
//@@ item fn RForStatement::as_fields
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r.for_token), is_token(self.syntax, 1, r.l_paren_token), is_node(self.syntax, 2, r.variable), is_token(self.syntax, 3, r.in_token), is_node(self.syntax, 4, r.sequence), is_token(self.syntax, 5, r.r_paren_token), is_node(self.syntax, 6, r.body),
//@@ end
}
impl AstNode for RForStatement {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_FOR_STATEMENT }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RForStatement<AstNode>::can_cast
//@@ end
//@@ item fn RForStatement<AstNode>::cast
//@@ end
//@@ item fn RForStatement<AstNode>::syntax
//@@ end
//@@ item fn RForStatement<AstNode>::into_syntax
//@@ end
}
//@@ item struct RFunctionDefinition
//@@   public
//@@ end
impl Clone for RFunctionDefinition {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RFunctionDefinitionFields
//@@   public
//@@ end
impl RFunctionDefinition {
//@@ item fn RFunctionDefinition::name
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r),
//@@ end
//@@ item fn RFunctionDefinition::parameters
//@@   ret r
//@@ + spec
    ensures is_node(self.syntax, 1, r),
//@@ end
//@@ item fn RFunctionDefinition::body
//@@   ret r
//@@ + spec
    ensures is_node(self.syntax, 2, r),
//@@ end
//@@ item fn RFunctionDefinition::as_fields
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r.name), is_node(self.syntax, 1, r.parameters), is_node(self.syntax, 2, r.body),
//@@ end
}
impl AstNode for RFunctionDefinition {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_FUNCTION_DEFINITION }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RFunctionDefinition<AstNode>::can_cast
//@@ end
//@@ item fn RFunctionDefinition<AstNode>::cast
//@@ end
//@@ item fn RFunctionDefinition<AstNode>::syntax
//@@ end
//@@ item fn RFunctionDefinition<AstNode>::into_syntax
//@@ end
}
//@@ item struct RIdentifier
//@@   public
//@@ end
impl Clone for RIdentifier {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RIdentifierFields
//@@   public
//@@ end
impl RIdentifier {
//@@ item fn RIdentifier::name_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r),
//@@ end
//@@ item fn RIdentifier::as_fields
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r.name_token),
//@@ end
}
impl AstNode for RIdentifier {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_IDENTIFIER }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RIdentifier<AstNode>::can_cast
//@@ end
//@@ item fn RIdentifier<AstNode>::cast
//@@ end
//@@ item fn RIdentifier<AstNode>::syntax
//@@ end
//@@ item fn RIdentifier<AstNode>::into_syntax
//@@ end
}
//@@ item struct RIfStatement
//@@   public
//@@ end
impl Clone for RIfStatement {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RIfStatementFields
//@@   public
//@@ end
impl RIfStatement {
//@@ item fn RIfStatement::if_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r),
//@@ end
//@@ item fn RIfStatement::l_paren_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 1, r),
//@@ end
//@@ item fn RIfStatement::condition
//@@   ret r
//@@ + spec
    ensures is_node(self.syntax, 2, r),
//@@ end
//@@ item fn RIfStatement::r_paren_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 3, r),
//@@ end
//@@ item fn RIfStatement::consequence
//@@   ret r
//@@ + spec
    ensures is_node(self.syntax, 4, r),
//@@ end
//@@ item fn RIfStatement::else_clause
//@@   ret r
//@@ + spec
    ensures opt_node(self.syntax, 5, r),
//@@ end
//@@ item fn RIfStatement::as_fields
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r.if_token), is_token(self.syntax, 1, r.l_paren_token), is_node(self.syntax, 2, r.condition), is_token(self.syntax, 3, r.r_paren_token), is_node(self.syntax, 4, r.consequence), opt_node(self.syntax, 5, r.else_clause),
//@@ end
}
impl AstNode for RIfStatement {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_IF_STATEMENT }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RIfStatement<AstNode>::can_cast
//@@ end
//@@ item fn RIfStatement<AstNode>::cast
//@@ end
//@@ item fn RIfStatement<AstNode>::syntax
//@@ end
//@@ item fn RIfStatement<AstNode>::into_syntax
//@@ end
}
//@@ item struct RInfExpression
//@@   public
//@@ end
impl Clone for RInfExpression {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RInfExpressionFields
//@@   public
//@@ end
impl RInfExpression {
//@@ item fn RInfExpression::inf_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r),
//@@ end
//@@ item fn RInfExpression::as_fields
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r.inf_token),
//@@ end
}
impl AstNode for RInfExpression {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_INF_EXPRESSION }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RInfExpression<AstNode>::can_cast
//@@ end
//@@ item fn RInfExpression<AstNode>::cast
//@@ end
//@@ item fn RInfExpression<AstNode>::syntax
//@@ end
//@@ item fn RInfExpression<AstNode>::into_syntax
//@@ end
}
//@@ item struct RIntegerValue
//@@   public
//@@ end
impl Clone for RIntegerValue {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RIntegerValueFields
//@@   public
//@@ end
impl RIntegerValue {
//@@ item fn RIntegerValue::value_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r),
//@@ end
//@@ item fn RIntegerValue::as_fields
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r.value_token),
//@@ end
}
impl AstNode for RIntegerValue {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_INTEGER_VALUE }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RIntegerValue<AstNode>::can_cast
//@@ end
//@@ item fn RIntegerValue<AstNode>::cast
//@@ end
//@@ item fn RIntegerValue<AstNode>::syntax
//@@ end
//@@ item fn RIntegerValue<AstNode>::into_syntax
//@@ end
}
//@@ item struct RNaExpression
//@@   public
//@@ end
impl Clone for RNaExpression {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RNaExpressionFields
//@@   public
//@@ end
impl RNaExpression {
//@@ item fn RNaExpression::value
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r),
//@@ end
//@@ item fn RNaExpression::as_fields
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r.value),
//@@ end
}
impl AstNode for RNaExpression {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_NA_EXPRESSION }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RNaExpression<AstNode>::can_cast
//@@ end
//@@ item fn RNaExpression<AstNode>::cast
//@@ end
//@@ item fn RNaExpression<AstNode>::syntax
//@@ end
//@@ item fn RNaExpression<AstNode>::into_syntax
//@@ end
}
//@@ item struct RNamespaceExpression
//@@   public
//@@ end
impl Clone for RNamespaceExpression {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RNamespaceExpressionFields
//@@   public
//@@ end
impl RNamespaceExpression {
//@@ item fn RNamespaceExpression::left
//@@   ret r
//@@ + spec
    ensures is_node(self.syntax, 0, r),
//@@ end
//@@ item fn RNamespaceExpression::operator
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 1, r),
//@@ end
//@@ item fn RNamespaceExpression::right
//@@   ret r
//@@ + spec
    ensures is_node(self.syntax, 2, r),
//@@ end
//@@ item fn RNamespaceExpression::as_fields
//@@   ret r
//@@ + spec
    ensures is_node(self.syntax, 0, r.left), is_token(self.syntax, 1, r.operator), is_node(self.syntax, 2, r.right),
//@@ end
}
impl AstNode for RNamespaceExpression {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_NAMESPACE_EXPRESSION }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RNamespaceExpression<AstNode>::can_cast
//@@ end
//@@ item fn RNamespaceExpression<AstNode>::cast
//@@ end
//@@ item fn RNamespaceExpression<AstNode>::syntax
//@@ end
//@@ item fn RNamespaceExpression<AstNode>::into_syntax
//@@ end
}
//@@ item struct RNanExpression
//@@   public
//@@ end
impl Clone for RNanExpression {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RNanExpressionFields
//@@   public
//@@ end
impl RNanExpression {
//@@ item fn RNanExpression::nan_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r),
//@@ end
//@@ item fn RNanExpression::as_fields
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r.nan_token),
//@@ end
}
impl AstNode for RNanExpression {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_NAN_EXPRESSION }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RNanExpression<AstNode>::can_cast
//@@ end
//@@ item fn RNanExpression<AstNode>::cast
//@@ end
//@@ item fn RNanExpression<AstNode>::syntax
//@@ end
//@@ item fn RNanExpression<AstNode>::into_syntax
//@@ end
}
//@@ item struct RNextExpression
//@@   public
//@@ end
impl Clone for RNextExpression {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RNextExpressionFields
//@@   public
//@@ end
impl RNextExpression {
//@@ item fn RNextExpression::next_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r),
//@@ end
//@@ item fn RNextExpression::as_fields
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r.next_token),
//@@ end
}
impl AstNode for RNextExpression {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_NEXT_EXPRESSION }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RNextExpression<AstNode>::can_cast
//@@ end
//@@ item fn RNextExpression<AstNode>::cast
//@@ end
//@@ item fn RNextExpression<AstNode>::syntax
//@@ end
//@@ item fn RNextExpression<AstNode>::into_syntax
//@@ end
}
//@@ item struct RNullExpression
//@@   public
//@@ end
impl Clone for RNullExpression {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RNullExpressionFields
//@@   public
//@@ end
impl RNullExpression {
//@@ item fn RNullExpression::null_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r),
//@@ end
//@@ item fn RNullExpression::as_fields
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r.null_token),
//@@ end
}
impl AstNode for RNullExpression {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_NULL_EXPRESSION }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RNullExpression<AstNode>::can_cast
//@@ end
//@@ item fn RNullExpression<AstNode>::cast
//@@ end
//@@ item fn RNullExpression<AstNode>::syntax
//@@ end
//@@ item fn RNullExpression<AstNode>::into_syntax
//@@ end
}
//@@ item struct RParameter
//@@   public
//@@ end
impl Clone for RParameter {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RParameterFields
//@@   public
//@@ end
impl RParameter {
//@@ item fn RParameter::name
//@@   ret r
//@@ + spec
    ensures is_node(self.syntax, 0, r),
//@@ end
//@@ item fn RParameter::default
//@@   ret r
//@@ + spec
    ensures opt_node(self.syntax, 1, r),
//@@ end
//@@ item fn RParameter::as_fields
//@@   ret r
//@@ + spec
    ensures is_node(self.syntax, 0, r.name), opt_node(self.syntax, 1, r.default),
//@@ end
}
impl AstNode for RParameter {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_PARAMETER }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RParameter<AstNode>::can_cast
//@@ end
//@@ item fn RParameter<AstNode>::cast
//@@ end
//@@ item fn RParameter<AstNode>::syntax
//@@ end
//@@ item fn RParameter<AstNode>::into_syntax
//@@ end
}
//@@ item struct RParameterDefault
//@@   public
//@@ end
impl Clone for RParameterDefault {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RParameterDefaultFields
//@@   public
//@@ end
impl RParameterDefault {
//@@ item fn RParameterDefault::eq_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r),
//@@ end
//@@ item fn RParameterDefault::value
//@@   ret r
//@@ + spec
    ensures is_node(self.syntax, 1, r),
//@@ end
//@@ item fn RParameterDefault::as_fields
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r.eq_token), is_node(self.syntax, 1, r.value),
//@@ end
}
impl AstNode for RParameterDefault {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_PARAMETER_DEFAULT }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RParameterDefault<AstNode>::can_cast
//@@ end
//@@ item fn RParameterDefault<AstNode>::cast
//@@ end
//@@ item fn RParameterDefault<AstNode>::syntax
//@@ end
//@@ item fn RParameterDefault<AstNode>::into_syntax
//@@ end
}
//@@ item struct RParameters
//@@   public
//@@ end
impl Clone for RParameters {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RParametersFields
//@@   public
//@@ end
impl RParameters {
//@@ item fn RParameters::l_paren_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r),
//@@ end
//@@ item fn RParameters::items
//@@   ret r
//@@ + spec
    ensures is_list(self.syntax, 1, r),
//@@ end
//@@ item fn RParameters::r_paren_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 2, r),
//@@ end
//@@ item fn RParameters::as_fields
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r.l_paren_token), is_list(self.syntax, 1, r.items), is_token(self.syntax, 2, r.r_paren_token),
//@@ end
}
impl AstNode for RParameters {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_PARAMETERS }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RParameters<AstNode>::can_cast
//@@ end
//@@ item fn RParameters<AstNode>::cast
//@@ end
//@@ item fn RParameters<AstNode>::syntax
//@@ end
//@@ item fn RParameters<AstNode>::into_syntax
//@@ end
}
//@@ item struct RParenthesizedExpression
//@@   public
//@@ end
impl Clone for RParenthesizedExpression {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RParenthesizedExpressionFields
//@@   public
//@@ end
impl RParenthesizedExpression {
//@@ item fn RParenthesizedExpression::l_paren_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r),
//@@ end
//@@ item fn RParenthesizedExpression::body
//@@   ret r
//@@ + spec
    ensures is_node(self.syntax, 1, r),
//@@ end
//@@ item fn RParenthesizedExpression::r_paren_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 2, r),
//@@ end
//@@ item fn RParenthesizedExpression::as_fields
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r.l_paren_token), is_node(self.syntax, 1, r.body), is_token(self.syntax, 2, r.r_paren_token),
//@@ end
}
impl AstNode for RParenthesizedExpression {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_PARENTHESIZED_EXPRESSION }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RParenthesizedExpression<AstNode>::can_cast
//@@ end
//@@ item fn RParenthesizedExpression<AstNode>::cast
//@@ end
//@@ item fn RParenthesizedExpression<AstNode>::syntax
//@@ end
//@@ item fn RParenthesizedExpression<AstNode>::into_syntax
//@@ end
}
//@@ item struct RRepeatStatement
//@@   public
//@@ end
impl Clone for RRepeatStatement {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RRepeatStatementFields
//@@   public
//@@ end
impl RRepeatStatement {
//@@ item fn RRepeatStatement::repeat_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r),
//@@ end
//@@ item fn RRepeatStatement::body
//@@   ret r
//@@ + spec
    ensures is_node(self.syntax, 1, r),
//@@ end
//@@ item fn RRepeatStatement::as_fields
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r.repeat_token), is_node(self.syntax, 1, r.body),
//@@ end
}
impl AstNode for RRepeatStatement {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_REPEAT_STATEMENT }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RRepeatStatement<AstNode>::can_cast
//@@ end
//@@ item fn RRepeatStatement<AstNode>::cast
//@@ end
//@@ item fn RRepeatStatement<AstNode>::syntax
//@@ end
//@@ item fn RRepeatStatement<AstNode>::into_syntax
//@@ end
}
//@@ item struct RRoot
//@@   public
//@@ end
impl Clone for RRoot {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RRootFields
//@@   public
//@@ end
impl RRoot {
//@@ item fn RRoot::bom_token
//@@   ret r
//@@ + spec
    ensures opt_token(self.syntax, 0, r),
//@@ end
//@@ item fn RRoot::expressions
//@@   ret r
//@@ + spec
    ensures is_list(self.syntax, 1, r),
//@@ end
//@@ item fn RRoot::eof_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 2, r),
//@@ end
//@@ item fn RRoot::as_fields
//@@   ret r
//@@ + spec
    ensures opt_token(self.syntax, 0, r.bom_token), is_list(self.syntax, 1, r.expressions), is_token(self.syntax, 2, r.eof_token),
//@@ end
}
impl AstNode for RRoot {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_ROOT }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RRoot<AstNode>::can_cast
//@@ end
//@@ item fn RRoot<AstNode>::cast
//@@ end
//@@ item fn RRoot<AstNode>::syntax
//@@ end
//@@ item fn RRoot<AstNode>::into_syntax
//@@ end
}
//@@ item struct RStringValue
//@@   public
//@@ end
impl Clone for RStringValue {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RStringValueFields
//@@   public
//@@ end
impl RStringValue {
//@@ item fn RStringValue::open_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r),
//@@ end
//@@ item fn RStringValue::content_token
//@@   ret r
//@@ + spec
    ensures opt_token(self.syntax, 1, r),
//@@ end
//@@ item fn RStringValue::close_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 2, r),
//@@ end
//@@ item fn RStringValue::as_fields
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r.open_token), opt_token(self.syntax, 1, r.content_token), is_token(self.syntax, 2, r.close_token),
//@@ end
}
impl AstNode for RStringValue {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_STRING_VALUE }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RStringValue<AstNode>::can_cast
//@@ end
//@@ item fn RStringValue<AstNode>::cast
//@@ end
//@@ item fn RStringValue<AstNode>::syntax
//@@ end
//@@ item fn RStringValue<AstNode>::into_syntax
//@@ end
}
//@@ item struct RSubset
//@@   public
//@@ end
impl Clone for RSubset {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RSubsetFields
//@@   public
//@@ end
impl RSubset {
//@@ item fn RSubset::function
//@@   ret r
//@@ + spec
    ensures is_node(self.syntax, 0, r),
//@@ end
//@@ item fn RSubset::arguments
//@@   ret r
//@@ + spec
    ensures is_node(self.syntax, 1, r),
//@@ end
//@@ item fn RSubset::as_fields
//@@   ret r
//@@ + spec
    ensures is_node(self.syntax, 0, r.function), is_node(self.syntax, 1, r.arguments),
//@@ end
}
impl AstNode for RSubset {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_SUBSET }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RSubset<AstNode>::can_cast
//@@ end
//@@ item fn RSubset<AstNode>::cast
//@@ end
//@@ item fn RSubset<AstNode>::syntax
//@@ end
//@@ item fn RSubset<AstNode>::into_syntax
//@@ end
}
//@@ item struct RSubset2
//@@   public
//@@ end
impl Clone for RSubset2 {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RSubset2Fields
//@@   public
//@@ end
impl RSubset2 {
//@@ item fn RSubset2::function
//@@   ret r
//@@ + spec
    ensures is_node(self.syntax, 0, r),
//@@ end
//@@ item fn RSubset2::arguments
//@@   ret r
//@@ + spec
    ensures is_node(self.syntax, 1, r),
//@@ end
//@@ item fn RSubset2::as_fields
//@@   ret r
//@@ + spec
    ensures is_node(self.syntax, 0, r.function), is_node(self.syntax, 1, r.arguments),
//@@ end
}
impl AstNode for RSubset2 {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_SUBSET2 }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RSubset2<AstNode>::can_cast
//@@ end
//@@ item fn RSubset2<AstNode>::cast
//@@ end
//@@ item fn RSubset2<AstNode>::syntax
//@@ end
//@@ item fn RSubset2<AstNode>::into_syntax
//@@ end
}
//@@ item struct RSubset2Arguments
//@@   public
//@@ end
impl Clone for RSubset2Arguments {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RSubset2ArgumentsFields
//@@   public
//@@ end
impl RSubset2Arguments {
//@@ item fn RSubset2Arguments::l_brack2_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r),
//@@ end
//@@ item fn RSubset2Arguments::items
//@@   ret r
//@@ + spec
    ensures is_list(self.syntax, 1, r),
//@@ end
//@@ item fn RSubset2Arguments::r_brack2_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 2, r),
//@@ end
//@@ item fn RSubset2Arguments::as_fields
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r.l_brack2_token), is_list(self.syntax, 1, r.items), is_token(self.syntax, 2, r.r_brack2_token),
//@@ end
}
impl AstNode for RSubset2Arguments {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_SUBSET2_ARGUMENTS }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RSubset2Arguments<AstNode>::can_cast
//@@ end
//@@ item fn RSubset2Arguments<AstNode>::cast
//@@ end
//@@ item fn RSubset2Arguments<AstNode>::syntax
//@@ end
//@@ item fn RSubset2Arguments<AstNode>::into_syntax
//@@ end
}
//@@ item struct RSubsetArguments
//@@   public
//@@ end
impl Clone for RSubsetArguments {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RSubsetArgumentsFields
//@@   public
//@@ end
impl RSubsetArguments {
//@@ item fn RSubsetArguments::l_brack_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r),
//@@ end
//@@ item fn RSubsetArguments::items
//@@   ret r
//@@ + spec
    ensures is_list(self.syntax, 1, r),
//@@ end
//@@ item fn RSubsetArguments::r_brack_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 2, r),
//@@ end
//@@ item fn RSubsetArguments::as_fields
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r.l_brack_token), is_list(self.syntax, 1, r.items), is_token(self.syntax, 2, r.r_brack_token),
//@@ end
}
impl AstNode for RSubsetArguments {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_SUBSET_ARGUMENTS }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RSubsetArguments<AstNode>::can_cast
//@@ end
//@@ item fn RSubsetArguments<AstNode>::cast
//@@ end
//@@ item fn RSubsetArguments<AstNode>::syntax
//@@ end
//@@ item fn RSubsetArguments<AstNode>::into_syntax
//@@ end
}
//@@ item struct RTrueExpression
//@@   public
//@@ end
impl Clone for RTrueExpression {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RTrueExpressionFields
//@@   public
//@@ end
impl RTrueExpression {
//@@ item fn RTrueExpression::true_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r),
//@@ end
//@@ item fn RTrueExpression::as_fields
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r.true_token),
//@@ end
}
impl AstNode for RTrueExpression {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_TRUE_EXPRESSION }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RTrueExpression<AstNode>::can_cast
//@@ end
//@@ item fn RTrueExpression<AstNode>::cast
//@@ end
//@@ item fn RTrueExpression<AstNode>::syntax
//@@ end
//@@ item fn RTrueExpression<AstNode>::into_syntax
//@@ end
}
//@@ item struct RUnaryExpression
//@@   public
//@@ end
impl Clone for RUnaryExpression {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RUnaryExpressionFields
//@@   public
//@@ end
impl RUnaryExpression {
//@@ item fn RUnaryExpression::operator
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r),
//@@ end
//@@ item fn RUnaryExpression::argument
//@@   ret r
//@@ + spec
    ensures is_node(self.syntax, 1, r),
//@@ end
//@@ item fn RUnaryExpression::as_fields
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r.operator), is_node(self.syntax, 1, r.argument),
//@@ end
}
impl AstNode for RUnaryExpression {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_UNARY_EXPRESSION }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RUnaryExpression<AstNode>::can_cast
//@@ end
//@@ item fn RUnaryExpression<AstNode>::cast
//@@ end
//@@ item fn RUnaryExpression<AstNode>::syntax
//@@ end
//@@ item fn RUnaryExpression<AstNode>::into_syntax
//@@ end
}
//@@ item struct RWhileStatement
//@@   public
//@@ end
impl Clone for RWhileStatement {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
//@@ item struct RWhileStatementFields
//@@   public
//@@ end
impl RWhileStatement {
//@@ item fn RWhileStatement::while_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r),
//@@ end
//@@ item fn RWhileStatement::l_paren_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 1, r),
//@@ end
//@@ item fn RWhileStatement::condition
//@@   ret r
//@@ + spec
    ensures is_node(self.syntax, 2, r),
//@@ end
//@@ item fn RWhileStatement::r_paren_token
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 3, r),
//@@ end
//@@ item fn RWhileStatement::body
//@@   ret r
//@@ + spec
    ensures is_node(self.syntax, 4, r),
//@@ end
//@@ item fn RWhileStatement::as_fields
//@@   ret r
//@@ + spec
    ensures is_token(self.syntax, 0, r.while_token), is_token(self.syntax, 1, r.l_paren_token), is_node(self.syntax, 2, r.condition), is_token(self.syntax, 3, r.r_paren_token), is_node(self.syntax, 4, r.body),
//@@ end
}
impl AstNode for RWhileStatement {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_WHILE_STATEMENT }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RWhileStatement<AstNode>::can_cast
//@@ end
//@@ item fn RWhileStatement<AstNode>::cast
//@@ end
//@@ item fn RWhileStatement<AstNode>::syntax
//@@ end
//@@ item fn RWhileStatement<AstNode>::into_syntax
//@@ end
}
//@@ item struct RArgumentList
//@@   public
//@@ end
impl Clone for RArgumentList {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
impl AstNode for RArgumentList {
    open spec fn node(&self) -> SyntaxNode { self.syntax_list.of() }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_ARGUMENT_LIST }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RArgumentList<AstNode>::can_cast
//@@ end
//@@ item fn RArgumentList<AstNode>::cast
//@@ end
//@@ item fn RArgumentList<AstNode>::syntax
//@@ end
//@@ item fn RArgumentList<AstNode>::into_syntax
//@@ end
}
//@@ item struct RExpressionList
//@@   public
//@@ end
impl Clone for RExpressionList {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
impl AstNode for RExpressionList {
    open spec fn node(&self) -> SyntaxNode { self.syntax_list.of() }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_EXPRESSION_LIST }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RExpressionList<AstNode>::can_cast
//@@ end
//@@ item fn RExpressionList<AstNode>::cast
//@@ end
//@@ item fn RExpressionList<AstNode>::syntax
//@@ end
//@@ item fn RExpressionList<AstNode>::into_syntax
//@@ end
}
//@@ item struct RParameterList
//@@   public
//@@ end
impl Clone for RParameterList {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
impl AstNode for RParameterList {
    open spec fn node(&self) -> SyntaxNode { self.syntax_list.of() }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_PARAMETER_LIST }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RParameterList<AstNode>::can_cast
//@@ end
//@@ item fn RParameterList<AstNode>::cast
//@@ end
//@@ item fn RParameterList<AstNode>::syntax
//@@ end
//@@ item fn RParameterList<AstNode>::into_syntax
//@@ end
}
//@@ item struct RBogusExpression
//@@   public
//@@ end
impl Clone for RBogusExpression {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
impl AstNode for RBogusExpression {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_BOGUS_EXPRESSION }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RBogusExpression<AstNode>::can_cast
//@@ end
//@@ item fn RBogusExpression<AstNode>::cast
//@@ end
//@@ item fn RBogusExpression<AstNode>::syntax
//@@ end
//@@ item fn RBogusExpression<AstNode>::into_syntax
//@@ end
}
//@@ item struct RBogusValue
//@@   public
//@@ end
impl Clone for RBogusValue {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
impl AstNode for RBogusValue {
    open spec fn node(&self) -> SyntaxNode { self.syntax }
    open spec fn casts(kind: SyntaxKind) -> bool { kind == SyntaxKind::R_BOGUS_VALUE }
    open spec fn fits(&self) -> bool { Self::casts(self.node().kind_of()) }
//@@ item fn RBogusValue<AstNode>::can_cast
//@@ end
//@@ item fn RBogusValue<AstNode>::cast
//@@ end
//@@ item fn RBogusValue<AstNode>::syntax
//@@ end
//@@ item fn RBogusValue<AstNode>::into_syntax
//@@ end
}
//@@ item enum AnyRArgumentName
//@@   public
//@@ end
impl Clone for AnyRArgumentName {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
impl AstNode for AnyRArgumentName {
    open spec fn node(&self) -> SyntaxNode { match *self { AnyRArgumentName::RDotDotI(n) => n.node(), AnyRArgumentName::RDots(n) => n.node(), AnyRArgumentName::RIdentifier(n) => n.node(), AnyRArgumentName::RNullExpression(n) => n.node(), AnyRArgumentName::RStringValue(n) => n.node() } }
    open spec fn casts(kind: SyntaxKind) -> bool { RDotDotI::casts(kind) || RDots::casts(kind) || RIdentifier::casts(kind) || RNullExpression::casts(kind) || RStringValue::casts(kind) }
    open spec fn fits(&self) -> bool { match *self { AnyRArgumentName::RDotDotI(n) => n.fits(), AnyRArgumentName::RDots(n) => n.fits(), AnyRArgumentName::RIdentifier(n) => n.fits(), AnyRArgumentName::RNullExpression(n) => n.fits(), AnyRArgumentName::RStringValue(n) => n.fits() } }
//@@ item fn AnyRArgumentName<AstNode>::can_cast
//@@ end
//@@ item fn AnyRArgumentName<AstNode>::cast
//@@ end
//@@ item fn AnyRArgumentName<AstNode>::syntax
//@@ end
//@@ item fn AnyRArgumentName<AstNode>::into_syntax
//@@ end
}
//@@ item enum AnyRExpression
//@@   public
//@@ end
impl Clone for AnyRExpression {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
impl AstNode for AnyRExpression {
    open spec fn node(&self) -> SyntaxNode { match *self { AnyRExpression::AnyRValue(n) => n.node(), AnyRExpression::RBinaryExpression(n) => n.node(), AnyRExpression::RBogusExpression(n) => n.node(), AnyRExpression::RBracedExpressions(n) => n.node(), AnyRExpression::RBreakExpression(n) => n.node(), AnyRExpression::RCall(n) => n.node(), AnyRExpression::RDotDotI(n) => n.node(), AnyRExpression::RDots(n) => n.node(), AnyRExpression::RExtractExpression(n) => n.node(), AnyRExpression::RFalseExpression(n) => n.node(), AnyRExpression::RForStatement(n) => n.node(), AnyRExpression::RFunctionDefinition(n) => n.node(), AnyRExpression::RIdentifier(n) => n.node(), AnyRExpression::RIfStatement(n) => n.node(), AnyRExpression::RInfExpression(n) => n.node(), AnyRExpression::RNaExpression(n) => n.node(), AnyRExpression::RNamespaceExpression(n) => n.node(), AnyRExpression::RNanExpression(n) => n.node(), AnyRExpression::RNextExpression(n) => n.node(), AnyRExpression::RNullExpression(n) => n.node(), AnyRExpression::RParenthesizedExpression(n) => n.node(), AnyRExpression::RRepeatStatement(n) => n.node(), AnyRExpression::RSubset(n) => n.node(), AnyRExpression::RSubset2(n) => n.node(), AnyRExpression::RTrueExpression(n) => n.node(), AnyRExpression::RUnaryExpression(n) => n.node(), AnyRExpression::RWhileStatement(n) => n.node() } }
    open spec fn casts(kind: SyntaxKind) -> bool { AnyRValue::casts(kind) || RBinaryExpression::casts(kind) || RBogusExpression::casts(kind) || RBracedExpressions::casts(kind) || RBreakExpression::casts(kind) || RCall::casts(kind) || RDotDotI::casts(kind) || RDots::casts(kind) || RExtractExpression::casts(kind) || RFalseExpression::casts(kind) || RForStatement::casts(kind) || RFunctionDefinition::casts(kind) || RIdentifier::casts(kind) || RIfStatement::casts(kind) || RInfExpression::casts(kind) || RNaExpression::casts(kind) || RNamespaceExpression::casts(kind) || RNanExpression::casts(kind) || RNextExpression::casts(kind) || RNullExpression::casts(kind) || RParenthesizedExpression::casts(kind) || RRepeatStatement::casts(kind) || RSubset::casts(kind) || RSubset2::casts(kind) || RTrueExpression::casts(kind) || RUnaryExpression::casts(kind) || RWhileStatement::casts(kind) }
    open spec fn fits(&self) -> bool { match *self { AnyRExpression::AnyRValue(n) => n.fits(), AnyRExpression::RBinaryExpression(n) => n.fits(), AnyRExpression::RBogusExpression(n) => n.fits(), AnyRExpression::RBracedExpressions(n) => n.fits(), AnyRExpression::RBreakExpression(n) => n.fits(), AnyRExpression::RCall(n) => n.fits(), AnyRExpression::RDotDotI(n) => n.fits(), AnyRExpression::RDots(n) => n.fits(), AnyRExpression::RExtractExpression(n) => n.fits(), AnyRExpression::RFalseExpression(n) => n.fits(), AnyRExpression::RForStatement(n) => n.fits(), AnyRExpression::RFunctionDefinition(n) => n.fits(), AnyRExpression::RIdentifier(n) => n.fits(), AnyRExpression::RIfStatement(n) => n.fits(), AnyRExpression::RInfExpression(n) => n.fits(), AnyRExpression::RNaExpression(n) => n.fits(), AnyRExpression::RNamespaceExpression(n) => n.fits(), AnyRExpression::RNanExpression(n) => n.fits(), AnyRExpression::RNextExpression(n) => n.fits(), AnyRExpression::RNullExpression(n) => n.fits(), AnyRExpression::RParenthesizedExpression(n) => n.fits(), AnyRExpression::RRepeatStatement(n) => n.fits(), AnyRExpression::RSubset(n) => n.fits(), AnyRExpression::RSubset2(n) => n.fits(), AnyRExpression::RTrueExpression(n) => n.fits(), AnyRExpression::RUnaryExpression(n) => n.fits(), AnyRExpression::RWhileStatement(n) => n.fits() } }
//@@ item fn AnyRExpression<AstNode>::can_cast
//@@ end
//@@ item fn AnyRExpression<AstNode>::cast
//@@ end
//@@ item fn AnyRExpression<AstNode>::syntax
//@@ end
//@@ item fn AnyRExpression<AstNode>::into_syntax
//@@ end
}
//@@ item enum AnyRParameterName
//@@   public
//@@ end
impl Clone for AnyRParameterName {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
impl AstNode for AnyRParameterName {
    open spec fn node(&self) -> SyntaxNode { match *self { AnyRParameterName::RDotDotI(n) => n.node(), AnyRParameterName::RDots(n) => n.node(), AnyRParameterName::RIdentifier(n) => n.node() } }
    open spec fn casts(kind: SyntaxKind) -> bool { RDotDotI::casts(kind) || RDots::casts(kind) || RIdentifier::casts(kind) }
    open spec fn fits(&self) -> bool { match *self { AnyRParameterName::RDotDotI(n) => n.fits(), AnyRParameterName::RDots(n) => n.fits(), AnyRParameterName::RIdentifier(n) => n.fits() } }
//@@ item fn AnyRParameterName<AstNode>::can_cast
//@@ end
//@@ item fn AnyRParameterName<AstNode>::cast
//@@ end
//@@ item fn AnyRParameterName<AstNode>::syntax
//@@ end
//@@ item fn AnyRParameterName<AstNode>::into_syntax
//@@ end
}
//@@ item enum AnyRSelector
//@@   public
//@@ end
impl Clone for AnyRSelector {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
impl AstNode for AnyRSelector {
    open spec fn node(&self) -> SyntaxNode { match *self { AnyRSelector::RDotDotI(n) => n.node(), AnyRSelector::RDots(n) => n.node(), AnyRSelector::RIdentifier(n) => n.node(), AnyRSelector::RStringValue(n) => n.node() } }
    open spec fn casts(kind: SyntaxKind) -> bool { RDotDotI::casts(kind) || RDots::casts(kind) || RIdentifier::casts(kind) || RStringValue::casts(kind) }
    open spec fn fits(&self) -> bool { match *self { AnyRSelector::RDotDotI(n) => n.fits(), AnyRSelector::RDots(n) => n.fits(), AnyRSelector::RIdentifier(n) => n.fits(), AnyRSelector::RStringValue(n) => n.fits() } }
//@@ item fn AnyRSelector<AstNode>::can_cast
//@@ end
//@@ item fn AnyRSelector<AstNode>::cast
//@@ end
//@@ item fn AnyRSelector<AstNode>::syntax
//@@ end
//@@ item fn AnyRSelector<AstNode>::into_syntax
//@@ end
}
//@@ item enum AnyRValue
//@@   public
//@@ end
impl Clone for AnyRValue {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }
}
impl AstNode for AnyRValue {
    open spec fn node(&self) -> SyntaxNode { match *self { AnyRValue::RBogusValue(n) => n.node(), AnyRValue::RComplexValue(n) => n.node(), AnyRValue::RDoubleValue(n) => n.node(), AnyRValue::RIntegerValue(n) => n.node(), AnyRValue::RStringValue(n) => n.node() } }
    open spec fn casts(kind: SyntaxKind) -> bool { RBogusValue::casts(kind) || RComplexValue::casts(kind) || RDoubleValue::casts(kind) || RIntegerValue::casts(kind) || RStringValue::casts(kind) }
    open spec fn fits(&self) -> bool { match *self { AnyRValue::RBogusValue(n) => n.fits(), AnyRValue::RComplexValue(n) => n.fits(), AnyRValue::RDoubleValue(n) => n.fits(), AnyRValue::RIntegerValue(n) => n.fits(), AnyRValue::RStringValue(n) => n.fits() } }
//@@ item fn AnyRValue<AstNode>::can_cast
//@@ end
//@@ item fn AnyRValue<AstNode>::cast
//@@ end
//@@ item fn AnyRValue<AstNode>::syntax
//@@ end
//@@ item fn AnyRValue<AstNode>::into_syntax
//@@ end
}

// ---------------------------------------------------------------- options, and what only passes on
//@@ source crates/air_r_formatter/src/r/auxiliary/binary_expression.rs
impl FormatRBinaryExpression {
//@@ item fn FormatRBinaryExpression<FormatRuleWithOptions>::with_options
//@@   rewrite `Self::Options` => `FormatRBinaryExpressionOptions`
//@@   ret r
//@@ + spec
    ensures r.alignment == options.alignment,
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/else_clause.rs
impl FormatRElseClause {
//@@ item fn FormatRElseClause<FormatRuleWithOptions>::with_options
//@@   rewrite `Self::Options` => `FormatRElseClauseOptions`
//@@   ret r
//@@ + spec
    ensures r.braced_expressions == options.braced_expressions,
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/function_definition.rs
impl FormatRFunctionDefinition {
//@@ item fn FormatRFunctionDefinition<FormatRuleWithOptions>::with_options
//@@   rewrite `Self::Options` => `FormatFunctionOptions`
//@@   ret r
//@@ + spec
    ensures r.options == options,
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/if_statement.rs
impl FormatRIfStatement {
//@@ item fn FormatRIfStatement<FormatRuleWithOptions>::with_options
//@@   rewrite `Self::Options` => `FormatRIfStatementOptions`
//@@   ret r
//@@ + spec
    ensures r.braced_expressions == options.braced_expressions,
//@@ end
}
//@@ source crates/air_r_formatter/src/r/any/argument_name.rs
//@@ item struct FormatAnyRArgumentName
//@@   public
//@@ end
impl FormatAnyRArgumentName {
//@@ item fn FormatAnyRArgumentName<FormatRule>::fmt
//@@   ret r
//@@ + spec
    ensures r is Ok ==> final(f).out() == old(f).out() + seq![Ir::Node(node.node(), Opt::Plain)],
//@@ end
}
//@@ source crates/air_r_formatter/src/r/any/expression.rs
//@@ item struct FormatAnyRExpression
//@@   public
//@@ end
impl FormatAnyRExpression {
//@@ item fn FormatAnyRExpression<FormatRule>::fmt
//@@   ret r
//@@ + spec
    ensures r is Ok ==> final(f).out() == old(f).out() + seq![Ir::Node(node.node(), Opt::Plain)],
//@@ end
}
//@@ source crates/air_r_formatter/src/r/any/parameter_name.rs
//@@ item struct FormatAnyRParameterName
//@@   public
//@@ end
impl FormatAnyRParameterName {
//@@ item fn FormatAnyRParameterName<FormatRule>::fmt
//@@   ret r
//@@ + spec
    ensures r is Ok ==> final(f).out() == old(f).out() + seq![Ir::Node(node.node(), Opt::Plain)],
//@@ end
}
//@@ source crates/air_r_formatter/src/r/any/selector.rs
//@@ item struct FormatAnyRSelector
//@@   public
//@@ end
impl FormatAnyRSelector {
//@@ item fn FormatAnyRSelector<FormatRule>::fmt
//@@   ret r
//@@ + spec
    ensures r is Ok ==> final(f).out() == old(f).out() + seq![Ir::Node(node.node(), Opt::Plain)],
//@@ end
}
//@@ source crates/air_r_formatter/src/r/any/value.rs
//@@ item struct FormatAnyRValue
//@@   public
//@@ end
impl FormatAnyRValue {
//@@ item fn FormatAnyRValue<FormatRule>::fmt
//@@   ret r
//@@ + spec
    ensures r is Ok ==> final(f).out() == old(f).out() + seq![Ir::Node(node.node(), Opt::Plain)],
//@@ end
}

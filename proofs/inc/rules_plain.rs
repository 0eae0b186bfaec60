// every token and child of the node, in order
//@@ source crates/air_r_formatter/src/r/auxiliary/break_expression.rs
//@@ item struct FormatRBreakExpression
//@@   public
//@@ end
impl FormatNodeRule<RBreakExpression> for FormatRBreakExpression {
    open spec fn wants(&self, n: RBreakExpression) -> bool { true }
    open spec fn fields(&self, n: RBreakExpression) -> Seq<Ir> { it(n.node(), 0) }
//@@ item fn FormatRBreakExpression<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/next_expression.rs
//@@ item struct FormatRNextExpression
//@@   public
//@@ end
impl FormatNodeRule<RNextExpression> for FormatRNextExpression {
    open spec fn wants(&self, n: RNextExpression) -> bool { true }
    open spec fn fields(&self, n: RNextExpression) -> Seq<Ir> { it(n.node(), 0) }
//@@ item fn FormatRNextExpression<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/complex_value.rs
//@@ item struct FormatRComplexValue
//@@   public
//@@ end
impl FormatNodeRule<RComplexValue> for FormatRComplexValue {
    open spec fn wants(&self, n: RComplexValue) -> bool { true }
    open spec fn fields(&self, n: RComplexValue) -> Seq<Ir> { it(n.node(), 0) }
//@@ item fn FormatRComplexValue<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/double_value.rs
//@@ item struct FormatRDoubleValue
//@@   public
//@@ end
impl FormatNodeRule<RDoubleValue> for FormatRDoubleValue {
    open spec fn wants(&self, n: RDoubleValue) -> bool { true }
    open spec fn fields(&self, n: RDoubleValue) -> Seq<Ir> { it(n.node(), 0) }
//@@ item fn FormatRDoubleValue<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/integer_value.rs
//@@ item struct FormatRIntegerValue
//@@   public
//@@ end
impl FormatNodeRule<RIntegerValue> for FormatRIntegerValue {
    open spec fn wants(&self, n: RIntegerValue) -> bool { true }
    open spec fn fields(&self, n: RIntegerValue) -> Seq<Ir> { it(n.node(), 0) }
//@@ item fn FormatRIntegerValue<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/dot_dot_i.rs
//@@ item struct FormatRDotDotI
//@@   public
//@@ end
impl FormatNodeRule<RDotDotI> for FormatRDotDotI {
    open spec fn wants(&self, n: RDotDotI) -> bool { true }
    open spec fn fields(&self, n: RDotDotI) -> Seq<Ir> { it(n.node(), 0) }
//@@ item fn FormatRDotDotI<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/dots.rs
//@@ item struct FormatRDots
//@@   public
//@@ end
impl FormatNodeRule<RDots> for FormatRDots {
    open spec fn wants(&self, n: RDots) -> bool { true }
    open spec fn fields(&self, n: RDots) -> Seq<Ir> { it(n.node(), 0) }
//@@ item fn FormatRDots<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/true_expression.rs
//@@ item struct FormatRTrueExpression
//@@   public
//@@ end
impl FormatNodeRule<RTrueExpression> for FormatRTrueExpression {
    open spec fn wants(&self, n: RTrueExpression) -> bool { true }
    open spec fn fields(&self, n: RTrueExpression) -> Seq<Ir> { it(n.node(), 0) }
//@@ item fn FormatRTrueExpression<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/false_expression.rs
//@@ item struct FormatRFalseExpression
//@@   public
//@@ end
impl FormatNodeRule<RFalseExpression> for FormatRFalseExpression {
    open spec fn wants(&self, n: RFalseExpression) -> bool { true }
    open spec fn fields(&self, n: RFalseExpression) -> Seq<Ir> { it(n.node(), 0) }
//@@ item fn FormatRFalseExpression<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/inf_expression.rs
//@@ item struct FormatRInfExpression
//@@   public
//@@ end
impl FormatNodeRule<RInfExpression> for FormatRInfExpression {
    open spec fn wants(&self, n: RInfExpression) -> bool { true }
    open spec fn fields(&self, n: RInfExpression) -> Seq<Ir> { it(n.node(), 0) }
//@@ item fn FormatRInfExpression<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/na_expression.rs
//@@ item struct FormatRNaExpression
//@@   public
//@@ end
impl FormatNodeRule<RNaExpression> for FormatRNaExpression {
    open spec fn wants(&self, n: RNaExpression) -> bool { true }
    open spec fn fields(&self, n: RNaExpression) -> Seq<Ir> { it(n.node(), 0) }
//@@ item fn FormatRNaExpression<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/nan_expression.rs
//@@ item struct FormatRNanExpression
//@@   public
//@@ end
impl FormatNodeRule<RNanExpression> for FormatRNanExpression {
    open spec fn wants(&self, n: RNanExpression) -> bool { true }
    open spec fn fields(&self, n: RNanExpression) -> Seq<Ir> { it(n.node(), 0) }
//@@ item fn FormatRNanExpression<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/null_expression.rs
//@@ item struct FormatRNullExpression
//@@   public
//@@ end
impl FormatNodeRule<RNullExpression> for FormatRNullExpression {
    open spec fn wants(&self, n: RNullExpression) -> bool { true }
    open spec fn fields(&self, n: RNullExpression) -> Seq<Ir> { it(n.node(), 0) }
//@@ item fn FormatRNullExpression<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/identifier.rs
//@@ item struct FormatRIdentifier
//@@   public
//@@ end
impl FormatNodeRule<RIdentifier> for FormatRIdentifier {
    open spec fn wants(&self, n: RIdentifier) -> bool { true }
    open spec fn fields(&self, n: RIdentifier) -> Seq<Ir> { it(n.node(), 0) }
//@@ item fn FormatRIdentifier<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/argument_name_clause.rs
//@@ item struct FormatRArgumentNameClause
//@@   public
//@@ end
impl FormatNodeRule<RArgumentNameClause> for FormatRArgumentNameClause {
    open spec fn wants(&self, n: RArgumentNameClause) -> bool { true }
    open spec fn fields(&self, n: RArgumentNameClause) -> Seq<Ir> { it(n.node(), 0) + it(n.node(), 1) }
//@@ item fn FormatRArgumentNameClause<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/parameter_default.rs
//@@ item struct FormatRParameterDefault
//@@   public
//@@ end
impl FormatNodeRule<RParameterDefault> for FormatRParameterDefault {
    open spec fn wants(&self, n: RParameterDefault) -> bool { true }
    open spec fn fields(&self, n: RParameterDefault) -> Seq<Ir> { it(n.node(), 0) + it(n.node(), 1) }
//@@ item fn FormatRParameterDefault<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/subset.rs
//@@ item struct FormatRSubset
//@@   public
//@@ end
impl FormatNodeRule<RSubset> for FormatRSubset {
    open spec fn wants(&self, n: RSubset) -> bool { true }
    open spec fn fields(&self, n: RSubset) -> Seq<Ir> { it(n.node(), 0) + it(n.node(), 1) }
//@@ item fn FormatRSubset<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/subset_2.rs
//@@ item struct FormatRSubset2
//@@   public
//@@ end
impl FormatNodeRule<RSubset2> for FormatRSubset2 {
    open spec fn wants(&self, n: RSubset2) -> bool { true }
    open spec fn fields(&self, n: RSubset2) -> Seq<Ir> { it(n.node(), 0) + it(n.node(), 1) }
//@@ item fn FormatRSubset2<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/parameter.rs
//@@ item struct FormatRParameter
//@@   public
//@@ end
impl FormatNodeRule<RParameter> for FormatRParameter {
    open spec fn wants(&self, n: RParameter) -> bool { true }
    open spec fn fields(&self, n: RParameter) -> Seq<Ir> { it(n.node(), 0) + it(n.node(), 1) }
//@@ item fn FormatRParameter<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/namespace_expression.rs
//@@ item struct FormatRNamespaceExpression
//@@   public
//@@ end
impl FormatNodeRule<RNamespaceExpression> for FormatRNamespaceExpression {
    open spec fn wants(&self, n: RNamespaceExpression) -> bool { true }
    open spec fn fields(&self, n: RNamespaceExpression) -> Seq<Ir> { group_ir(it(n.node(), 0) + it(n.node(), 1) + it(n.node(), 2)) }
//@@ item fn FormatRNamespaceExpression<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ end
}
//@@ source crates/air_r_formatter/src/r/auxiliary/extract_expression.rs
//@@ item struct FormatRExtractExpression
//@@   public
//@@ end
impl FormatNodeRule<RExtractExpression> for FormatRExtractExpression {
    open spec fn wants(&self, n: RExtractExpression) -> bool { true }
    open spec fn fields(&self, n: RExtractExpression) -> Seq<Ir> { group_ir(it(n.node(), 0) + it(n.node(), 1) + it(n.node(), 2)) }
//@@ item fn FormatRExtractExpression<FormatNodeRule>::fmt_fields
//@@   inherits
//@@ end
}

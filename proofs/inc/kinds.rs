// The syntax kind of every name the grammar of tree-sitter-r gives a node.
pub open spec fn kind_of(n: Seq<char>) -> RSyntaxKind {
    if n == "program"@ { RSyntaxKind::R_ROOT } else
    if n == "unary_operator"@ { RSyntaxKind::R_UNARY_EXPRESSION } else
    if n == "binary_operator"@ { RSyntaxKind::R_BINARY_EXPRESSION } else
    if n == "extract_operator"@ { RSyntaxKind::R_EXTRACT_EXPRESSION } else
    if n == "namespace_operator"@ { RSyntaxKind::R_NAMESPACE_EXPRESSION } else
    if n == "function_definition"@ { RSyntaxKind::R_FUNCTION_DEFINITION } else
    if n == "parameters"@ { RSyntaxKind::R_PARAMETERS } else
    if n == "parameter"@ { RSyntaxKind::R_PARAMETER } else
    if n == "if_statement"@ { RSyntaxKind::R_IF_STATEMENT } else
    if n == "for_statement"@ { RSyntaxKind::R_FOR_STATEMENT } else
    if n == "while_statement"@ { RSyntaxKind::R_WHILE_STATEMENT } else
    if n == "repeat_statement"@ { RSyntaxKind::R_REPEAT_STATEMENT } else
    if n == "braced_expression"@ { RSyntaxKind::R_BRACED_EXPRESSIONS } else
    if n == "parenthesized_expression"@ { RSyntaxKind::R_PARENTHESIZED_EXPRESSION } else
    if n == "call"@ { RSyntaxKind::R_CALL } else
    if n == "subset"@ { RSyntaxKind::R_SUBSET } else
    if n == "subset2"@ { RSyntaxKind::R_SUBSET2 } else
    if n == "argument"@ { RSyntaxKind::R_ARGUMENT } else
    if n == "identifier"@ { RSyntaxKind::R_IDENTIFIER } else
    if n == "integer"@ { RSyntaxKind::R_INTEGER_VALUE } else
    if n == "float"@ { RSyntaxKind::R_DOUBLE_VALUE } else
    if n == "complex"@ { RSyntaxKind::R_COMPLEX_VALUE } else
    if n == "string"@ { RSyntaxKind::R_STRING_VALUE } else
    if n == "string_open"@ { RSyntaxKind::STRING_OPEN } else
    if n == "string_content"@ { RSyntaxKind::STRING_CONTENT } else
    if n == "string_close"@ { RSyntaxKind::STRING_CLOSE } else
    if n == "next"@ { RSyntaxKind::R_NEXT_EXPRESSION } else
    if n == "break"@ { RSyntaxKind::R_BREAK_EXPRESSION } else
    if n == "true"@ { RSyntaxKind::R_TRUE_EXPRESSION } else
    if n == "false"@ { RSyntaxKind::R_FALSE_EXPRESSION } else
    if n == "null"@ { RSyntaxKind::R_NULL_EXPRESSION } else
    if n == "inf"@ { RSyntaxKind::R_INF_EXPRESSION } else
    if n == "nan"@ { RSyntaxKind::R_NAN_EXPRESSION } else
    if n == "na"@ { RSyntaxKind::R_NA_EXPRESSION } else
    if n == "NA"@ { RSyntaxKind::NA_LOGICAL_KW } else
    if n == "NA_integer_"@ { RSyntaxKind::NA_INTEGER_KW } else
    if n == "NA_real_"@ { RSyntaxKind::NA_DOUBLE_KW } else
    if n == "NA_complex_"@ { RSyntaxKind::NA_COMPLEX_KW } else
    if n == "NA_character_"@ { RSyntaxKind::NA_CHARACTER_KW } else
    if n == "{"@ { RSyntaxKind::L_CURLY } else
    if n == "}"@ { RSyntaxKind::R_CURLY } else
    if n == "["@ { RSyntaxKind::L_BRACK } else
    if n == "]"@ { RSyntaxKind::R_BRACK } else
    if n == "[["@ { RSyntaxKind::L_BRACK2 } else
    if n == "]]"@ { RSyntaxKind::R_BRACK2 } else
    if n == "("@ { RSyntaxKind::L_PAREN } else
    if n == ")"@ { RSyntaxKind::R_PAREN } else
    if n == "?"@ { RSyntaxKind::WAT } else
    if n == "~"@ { RSyntaxKind::TILDE } else
    if n == "<-"@ { RSyntaxKind::ASSIGN } else
    if n == "<<-"@ { RSyntaxKind::SUPER_ASSIGN } else
    if n == ":="@ { RSyntaxKind::WALRUS } else
    if n == "->"@ { RSyntaxKind::ASSIGN_RIGHT } else
    if n == "->>"@ { RSyntaxKind::SUPER_ASSIGN_RIGHT } else
    if n == "="@ { RSyntaxKind::EQUAL } else
    if n == "|"@ { RSyntaxKind::OR } else
    if n == "&"@ { RSyntaxKind::AND } else
    if n == "||"@ { RSyntaxKind::OR2 } else
    if n == "&&"@ { RSyntaxKind::AND2 } else
    if n == "<"@ { RSyntaxKind::LESS_THAN } else
    if n == "<="@ { RSyntaxKind::LESS_THAN_OR_EQUAL_TO } else
    if n == ">"@ { RSyntaxKind::GREATER_THAN } else
    if n == ">="@ { RSyntaxKind::GREATER_THAN_OR_EQUAL_TO } else
    if n == "=="@ { RSyntaxKind::EQUAL2 } else
    if n == "!="@ { RSyntaxKind::NOT_EQUAL } else
    if n == "+"@ { RSyntaxKind::PLUS } else
    if n == "-"@ { RSyntaxKind::MINUS } else
    if n == "*"@ { RSyntaxKind::MULTIPLY } else
    if n == "/"@ { RSyntaxKind::DIVIDE } else
    if n == "^"@ { RSyntaxKind::EXPONENTIATE } else
    if n == "**"@ { RSyntaxKind::EXPONENTIATE2 } else
    if n == "|>"@ { RSyntaxKind::PIPE } else
    if n == "special"@ { RSyntaxKind::SPECIAL } else
    if n == ":"@ { RSyntaxKind::COLON } else
    if n == "::"@ { RSyntaxKind::COLON2 } else
    if n == ":::"@ { RSyntaxKind::COLON3 } else
    if n == "$"@ { RSyntaxKind::DOLLAR } else
    if n == "@"@ { RSyntaxKind::AT } else
    if n == "!"@ { RSyntaxKind::BANG } else
    if n == "function"@ { RSyntaxKind::FUNCTION_KW } else
    if n == "\\"@ { RSyntaxKind::BACKSLASH } else
    if n == "if"@ { RSyntaxKind::IF_KW } else
    if n == "else"@ { RSyntaxKind::ELSE_KW } else
    if n == "for"@ { RSyntaxKind::FOR_KW } else
    if n == "in"@ { RSyntaxKind::IN_KW } else
    if n == "while"@ { RSyntaxKind::WHILE_KW } else
    if n == "repeat"@ { RSyntaxKind::REPEAT_KW } else
    if n == "comma"@ { RSyntaxKind::COMMA } else
    if n == "dots"@ { RSyntaxKind::R_DOTS } else
    if n == "dot_dot_i"@ { RSyntaxKind::R_DOT_DOT_I } else
    if n == "comment"@ { RSyntaxKind::COMMENT } else
    { RSyntaxKind::TOMBSTONE }
}
/// a name of the grammar
pub open spec fn known(n: Seq<char>) -> bool { kind_of(n) != RSyntaxKind::TOMBSTONE }

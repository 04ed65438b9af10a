------------------------------ MODULE Keywords ------------------------------
(* The reserved words of the language. *)
EXTENDS Sequences
KEYWORDS == {
    <<"Text", "TK_TokenType", <<84, 101, 120, 116>>>>,
    <<"AND", "TK_And", <<65, 78, 68>>>>,
    <<"AS", "TK_As", <<65, 83>>>>,
    <<"ASC", "TK_Ascending", <<65, 83, 67>>>>,
    <<"BOOL", "TK_Bool", <<66, 79, 79, 76>>>>,
    <<"BY", "TK_By", <<66, 89>>>>,
    <<"CASCADE", "TK_Cascade", <<67, 65, 83, 67, 65, 68, 69>>>>,
    <<"CHAR", "TK_Char", <<67, 72, 65, 82>>>>,
    <<"CHECK", "TK_Check", <<67, 72, 69, 67, 75>>>>,
    <<"CREATE", "TK_Create", <<67, 82, 69, 65, 84, 69>>>>,
    <<"DATABASE", "TK_Database", <<68, 65, 84, 65, 66, 65, 83, 69>>>>,
    <<"DATE", "TK_Date", <<68, 65, 84, 69>>>>,
    <<"DATETIME", "TK_Datetime", <<68, 65, 84, 69, 84, 73, 77, 69>>>>,
    <<"DECIMAL", "TK_Decimal", <<68, 69, 67, 73, 77, 65, 76>>>>,
    <<"DEFAULT", "TK_Default", <<68, 69, 70, 65, 85, 76, 84>>>>,
    <<"DELETE", "TK_Delete", <<68, 69, 76, 69, 84, 69>>>>,
    <<"DELIMITER", "TK_Delimiter", <<68, 69, 76, 73, 77, 73, 84, 69, 82>>>>,
    <<"DESC", "TK_Descending", <<68, 69, 83, 67>>>>,
    <<"DOUBLE", "TK_Double", <<68, 79, 85, 66, 76, 69>>>>,
    <<"DROP", "TK_Drop", <<68, 82, 79, 80>>>>,
    <<"DSV", "TK_Dsv", <<68, 83, 86>>>>,
    <<"ESCAPE", "TK_Escape", <<69, 83, 67, 65, 80, 69>>>>,
    <<"EXISTS", "TK_Exists", <<69, 88, 73, 83, 84, 83>>>>,
    <<"FALSE", "TK_False", <<70, 65, 76, 83, 69>>>>,
    <<"FLOAT", "TK_Float", <<70, 76, 79, 65, 84>>>>,
    <<"FROM", "TK_From", <<70, 82, 79, 77>>>>,
    <<"GROUP", "TK_Group", <<71, 82, 79, 85, 80>>>>,
    <<"HAS", "TK_Has", <<72, 65, 83>>>>,
    <<"HAVING", "TK_Having", <<72, 65, 86, 73, 78, 71>>>>,
    <<"HEADER", "TK_Header", <<72, 69, 65, 68, 69, 82>>>>,
    <<"IF", "TK_If", <<73, 70>>>>,
    <<"IMPORT", "TK_Import", <<73, 77, 80, 79, 82, 84>>>>,
    <<"INDEX", "TK_Index", <<73, 78, 68, 69, 88>>>>,
    <<"INSERT", "TK_Insert", <<73, 78, 83, 69, 82, 84>>>>,
    <<"INT", "TK_Int", <<73, 78, 84>>>>,
    <<"INTO", "TK_Into", <<73, 78, 84, 79>>>>,
    <<"KEY", "TK_Key", <<75, 69, 89>>>>,
    <<"LIKE", "TK_Like", <<76, 73, 75, 69>>>>,
    <<"LIMIT", "TK_Limit", <<76, 73, 77, 73, 84>>>>,
    <<"NOT", "TK_Not", <<78, 79, 84>>>>,
    <<"NULL", "TK_Null", <<78, 85, 76, 76>>>>,
    <<"OFFSET", "TK_Offset", <<79, 70, 70, 83, 69, 84>>>>,
    <<"ON", "TK_On", <<79, 78>>>>,
    <<"OR", "TK_Or", <<79, 82>>>>,
    <<"ORDER", "TK_Order", <<79, 82, 68, 69, 82>>>>,
    <<"PRIMARY", "TK_Primary", <<80, 82, 73, 77, 65, 82, 89>>>>,
    <<"QUOTE", "TK_Quote", <<81, 85, 79, 84, 69>>>>,
    <<"REFERENCES", "TK_References", <<82, 69, 70, 69, 82, 69, 78, 67, 69, 83>>>>,
    <<"RESTRICT", "TK_Restrict", <<82, 69, 83, 84, 82, 73, 67, 84>>>>,
    <<"ROWS", "TK_Rows", <<82, 79, 87, 83>>>>,
    <<"SELECT", "TK_Select", <<83, 69, 76, 69, 67, 84>>>>,
    <<"SET", "TK_Set", <<83, 69, 84>>>>,
    <<"SKIP", "TK_Skip", <<83, 75, 73, 80>>>>,
    <<"TABLE", "TK_Table", <<84, 65, 66, 76, 69>>>>,
    <<"TRUE", "TK_True", <<84, 82, 85, 69>>>>,
    <<"UNIQUE", "TK_Unique", <<85, 78, 73, 81, 85, 69>>>>,
    <<"UPDATE", "TK_Update", <<85, 80, 68, 65, 84, 69>>>>,
    <<"USE", "TK_Use", <<85, 83, 69>>>>,
    <<"USING", "TK_Using", <<85, 83, 73, 78, 71>>>>,
    <<"VALUES", "TK_Values", <<86, 65, 76, 85, 69, 83>>>>,
    <<"VARCHAR", "TK_Varchar", <<86, 65, 82, 67, 72, 65, 82>>>>,
    <<"WHERE", "TK_Where", <<87, 72, 69, 82, 69>>>>
}
Words == {k[3] : k \in KEYWORDS}
Keyword(w) == IF w \in Words THEN (CHOOSE k \in KEYWORDS : k[3] = w)[2] ELSE "TK_IDENTIFIER"
=============================================================================

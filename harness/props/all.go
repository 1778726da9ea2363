// Code generated by tools/genall.sh; DO NOT EDIT.

package props

// All are the harness functions by name.
var All = map[string]func(){
	"C01_Brackets":        C01_Brackets,
	"C01_Bytes":           C01_Bytes,
	"C01_Changed":         C01_Changed,
	"C01_Deep":            C01_Deep,
	"C01_Digits":          C01_Digits,
	"C01_Empty":           C01_Empty,
	"C01_Expressions":     C01_Expressions,
	"C01_Literals":        C01_Literals,
	"C01_Long":            C01_Long,
	"C01_Odd":             C01_Odd,
	"C01_Patterns":        C01_Patterns,
	"C01_Shapes":          C01_Shapes,
	"C01_TooDeep":         C01_TooDeep,
	"C01_TooLong":         C01_TooLong,
	"C02_Bytes":           C02_Bytes,
	"C02_Changed":         C02_Changed,
	"C02_Members":         C02_Members,
	"C02_Numbers":         C02_Numbers,
	"C02_Odd":             C02_Odd,
	"C02_Slice":           C02_Slice,
	"C02_Space":           C02_Space,
	"C02_Steps":           C02_Steps,
	"C02_Subscript":       C02_Subscript,
	"C02_Twice":           C02_Twice,
	"C03_Bytes":           C03_Bytes,
	"C03_Changed":         C03_Changed,
	"C03_InPath":          C03_InPath,
	"C03_InPathBytes":     C03_InPathBytes,
	"C03_Long":            C03_Long,
	"C03_Names":           C03_Names,
	"C03_Operands":        C03_Operands,
	"C03_Operators":       C03_Operators,
	"C03_Postfix":         C03_Postfix,
	"C03_Twice":           C03_Twice,
	"C03_Words":           C03_Words,
	"C04_Four":            C04_Four,
	"C04_Inner":           C04_Inner,
	"C04_Kinds":           C04_Kinds,
	"C04_Long":            C04_Long,
	"C04_Parens":          C04_Parens,
	"C04_Postfix":         C04_Postfix,
	"C04_Three":           C04_Three,
	"C04_Two":             C04_Two,
	"C04_Unary":           C04_Unary,
	"C04_Words":           C04_Words,
	"C05_Escapes":         C05_Escapes,
	"C05_Index":           C05_Index,
	"C05_Integers":        C05_Integers,
	"C05_Keep":            C05_Keep,
	"C05_Large":           C05_Large,
	"C05_LongNumber":      C05_LongNumber,
	"C05_LongText":        C05_LongText,
	"C05_PathStrings":     C05_PathStrings,
	"C05_Patterns":        C05_Patterns,
	"C05_RealSpellings":   C05_RealSpellings,
	"C05_Reals":           C05_Reals,
	"C05_Strings":         C05_Strings,
	"C05_Surrogates":      C05_Surrogates,
	"C05_Unicode":         C05_Unicode,
	"C06_After":           C06_After,
	"C06_AnyName":         C06_AnyName,
	"C06_Digits":          C06_Digits,
	"C06_Index":           C06_Index,
	"C06_Keys":            C06_Keys,
	"C06_LongDigits":      C06_LongDigits,
	"C06_LongKeys":        C06_LongKeys,
	"C06_Names":           C06_Names,
	"C07_Docs":            C07_Docs,
	"C07_Large":           C07_Large,
	"C07_Small":           C07_Small,
	"C07_Union":           C07_Union,
	"C08_Index":           C08_Index,
	"C08_Inputs":          C08_Inputs,
	"C08_Long":            C08_Long,
	"C08_Pairs":           C08_Pairs,
	"C08_Triples":         C08_Triples,
	"C08_Wide":            C08_Wide,
	"C09_Again":           C09_Again,
	"C09_AnyName":         C09_AnyName,
	"C09_Deep":            C09_Deep,
	"C09_Members":         C09_Members,
	"C09_Nest":            C09_Nest,
	"C09_NestSeq":         C09_NestSeq,
	"C09_Odd":             C09_Odd,
	"C09_Wide":            C09_Wide,
	"C09_Wild":            C09_Wild,
	"C10_AnyText":         C10_AnyText,
	"C10_Chain":           C10_Chain,
	"C10_Filter":          C10_Filter,
	"C10_Four":            C10_Four,
	"C10_Long":            C10_Long,
	"C10_Many":            C10_Many,
	"C10_Nest":            C10_Nest,
	"C10_Scalars":         C10_Scalars,
	"C10_Seq":             C10_Seq,
	"C10_Values":          C10_Values,
	"C11_AnyText":         C11_AnyText,
	"C11_Compose":         C11_Compose,
	"C11_Computed":        C11_Computed,
	"C11_Cross":           C11_Cross,
	"C11_Integer":         C11_Integer,
	"C11_Long":            C11_Long,
	"C11_Many":            C11_Many,
	"C11_Nests":           C11_Nests,
	"C11_Number":          C11_Number,
	"C11_Root":            C11_Root,
	"C11_Three":           C11_Three,
	"C11_Two":             C11_Two,
	"C12_AnyText":         C12_AnyText,
	"C12_ArrayNumeral":    C12_ArrayNumeral,
	"C12_ArrayScalar":     C12_ArrayScalar,
	"C12_Arrays":          C12_Arrays,
	"C12_Deep":            C12_Deep,
	"C12_Elements":        C12_Elements,
	"C12_Integers":        C12_Integers,
	"C12_Literals":        C12_Literals,
	"C12_Long":            C12_Long,
	"C12_LongText":        C12_LongText,
	"C12_ManyElements":    C12_ManyElements,
	"C12_Numerals":        C12_Numerals,
	"C12_Scalars":         C12_Scalars,
	"C12_Spelled":         C12_Spelled,
	"C12_Strings":         C12_Strings,
	"C12_Structures":      C12_Structures,
	"C12_Table":           C12_Table,
	"C12_WideObjects":     C12_WideObjects,
	"C13_Any":             C13_Any,
	"C13_AnyText":         C13_AnyText,
	"C13_Bytes":           C13_Bytes,
	"C13_Integers":        C13_Integers,
	"C13_LongText":        C13_LongText,
	"C13_Results":         C13_Results,
	"C13_Strings":         C13_Strings,
	"C13_Table":           C13_Table,
	"C14_Any":             C14_Any,
	"C14_Chains":          C14_Chains,
	"C14_Doubles":         C14_Doubles,
	"C14_Integers":        C14_Integers,
	"C14_Mixed":           C14_Mixed,
	"C14_Negation":        C14_Negation,
	"C14_Products":        C14_Products,
	"C14_Small":           C14_Small,
	"C14_Table":           C14_Table,
	"C15_AndOr":           C15_AndOr,
	"C15_AnyText":         C15_AnyText,
	"C15_Kinds":           C15_Kinds,
	"C15_Numbers":         C15_Numbers,
	"C15_Structures":      C15_Structures,
	"C15_Table":           C15_Table,
	"C15_Truth":           C15_Truth,
	"C15_Values":          C15_Values,
	"C16_AnyText":         C16_AnyText,
	"C16_Arrays":          C16_Arrays,
	"C16_Dynamic":         C16_Dynamic,
	"C16_Errors":          C16_Errors,
	"C16_In":              C16_In,
	"C16_Lists":           C16_Lists,
	"C16_LongList":        C16_LongList,
	"C16_LongText":        C16_LongText,
	"C16_Match":           C16_Match,
	"C16_Nested":          C16_Nested,
	"C16_Patterns":        C16_Patterns,
	"C16_Table":           C16_Table,
	"C16_Within":          C16_Within,
	"C17_AnyCall":         C17_AnyCall,
	"C17_AnyText":         C17_AnyText,
	"C17_Arrays":          C17_Arrays,
	"C17_Calls":           C17_Calls,
	"C17_Contains":        C17_Contains,
	"C17_Contains4":       C17_Contains4,
	"C17_Extremes":        C17_Extremes,
	"C17_Keys":            C17_Keys,
	"C17_Kinds":           C17_Kinds,
	"C17_Length":          C17_Length,
	"C17_Long":            C17_Long,
	"C17_LongList":        C17_LongList,
	"C17_LongText":        C17_LongText,
	"C17_Numerals":        C17_Numerals,
	"C17_Pairs":           C17_Pairs,
	"C17_Round":           C17_Round,
	"C17_Strings":         C17_Strings,
	"C17_Sums":            C17_Sums,
	"C17_Table":           C17_Table,
	"C17_Table2":          C17_Table2,
	"C17_ToNumber":        C17_ToNumber,
	"C17_Tokenize":        C17_Tokenize,
	"C17_Tokens":          C17_Tokens,
	"C17_Twice":           C17_Twice,
	"C18_AnyText":         C18_AnyText,
	"C18_Binary":          C18_Binary,
	"C18_Calls":           C18_Calls,
	"C18_Cross":           C18_Cross,
	"C18_Functions":       C18_Functions,
	"C18_Numbers":         C18_Numbers,
	"C18_Operators":       C18_Operators,
	"C18_Sizes":           C18_Sizes,
	"C18_Steps":           C18_Steps,
	"C18_Unary":           C18_Unary,
	"C19_Cross":           C19_Cross,
	"C19_History":         C19_History,
	"C19_Many":            C19_Many,
	"C19_Owned":           C19_Owned,
	"C19_Results":         C19_Results,
	"C19_Strings":         C19_Strings,
	"C19_Twice":           C19_Twice,
	"C19_Wide":            C19_Wide,
	"C19_WideResults":     C19_WideResults,
	"C20_Compile":         C20_Compile,
	"C20_Cross":           C20_Cross,
	"C20_Repeated":        C20_Repeated,
	"C20_Same":            C20_Same,
	"C20_Symbolic":        C20_Symbolic,
	"C20_Three":           C20_Three,
	"C21_At":              C21_At,
	"C21_Cross":           C21_Cross,
	"C21_Ends":            C21_Ends,
	"C21_Filters":         C21_Filters,
	"C21_Long":            C21_Long,
	"C21_Nests":           C21_Nests,
	"C21_Pairs":           C21_Pairs,
	"C21_Schedules":       C21_Schedules,
	"C22_Across":          C22_Across,
	"C22_Alike":           C22_Alike,
	"C22_Integers":        C22_Integers,
	"C22_Keys":            C22_Keys,
	"C22_Limits":          C22_Limits,
	"C22_Many":            C22_Many,
	"C22_NearReals":       C22_NearReals,
	"C22_Patterns":        C22_Patterns,
	"C22_Reals":           C22_Reals,
	"C22_Texts":           C22_Texts,
	"C22_Types":           C22_Types,
	"C23_Bytes":           C23_Bytes,
	"C23_Ends":            C23_Ends,
	"C23_Files":           C23_Files,
	"C23_Full":            C23_Full,
	"C23_Long":            C23_Long,
	"C23_Many":            C23_Many,
	"C23_Numbers":         C23_Numbers,
	"C23_Odd":             C23_Odd,
	"C23_Paths":           C23_Paths,
	"C23_Usage":           C23_Usage,
	"C23_Values":          C23_Values,
	"C24_Alike":           C24_Alike,
	"C24_Bytes":           C24_Bytes,
	"C24_Changed":         C24_Changed,
	"C24_Failed":          C24_Failed,
	"C24_Large":           C24_Large,
	"C24_Long":            C24_Long,
	"C24_Many":            C24_Many,
	"C24_Names":           C24_Names,
	"C24_Parsers":         C24_Parsers,
	"C24_ParsersExpr":     C24_ParsersExpr,
	"C24_Rejected":        C24_Rejected,
	"C24_RejectedDeep":    C24_RejectedDeep,
	"C24_Together":        C24_Together,
	"C24_TogetherTwice":   C24_TogetherTwice,
	"C24_WhileEvaluating": C24_WhileEvaluating,
	"C25_After":           C25_After,
	"C25_Arithmetic":      C25_Arithmetic,
	"C25_Compose":         C25_Compose,
	"C25_Functions":       C25_Functions,
	"C25_In":              C25_In,
	"C25_Literals":        C25_Literals,
	"C25_Logic":           C25_Logic,
	"C25_Numbers":         C25_Numbers,
	"C25_Order":           C25_Order,
	"C25_Parentheses":     C25_Parentheses,
	"C25_Quotes":          C25_Quotes,
	"C25_Selections":      C25_Selections,
	"C25_Sequences":       C25_Sequences,
	"C25_Slices":          C25_Slices,
	"C25_Space":           C25_Space,
	"C25_Steps":           C25_Steps,
	"C25_Sums":            C25_Sums,
	"C25_Wrapped":         C25_Wrapped,
	"C26_Around":          C26_Around,
	"C26_Changed":         C26_Changed,
	"C26_Constants":       C26_Constants,
	"C26_Counts":          C26_Counts,
	"C26_Cross":           C26_Cross,
	"C26_Integers":        C26_Integers,
	"C26_Long":            C26_Long,
	"C26_Many":            C26_Many,
	"C26_Ops":             C26_Ops,
	"C26_ReadBack":        C26_ReadBack,
	"C26_Reals":           C26_Reals,
	"C26_Shapes":          C26_Shapes,
	"C26_Steps":           C26_Steps,
	"C26_Values":          C26_Values,
	"C26_While":           C26_While,
	"C27_Bytes":           C27_Bytes,
	"C27_Changed":         C27_Changed,
	"C27_Cut":             C27_Cut,
	"C27_Expression":      C27_Expression,
	"C27_Far":             C27_Far,
	"C27_Illegal":         C27_Illegal,
	"C28_Cut":             C28_Cut,
	"C28_Indices":         C28_Indices,
	"C28_Joined":          C28_Joined,
	"C28_JoinedAny":       C28_JoinedAny,
	"C28_Kept":            C28_Kept,
	"C28_KeptAny":         C28_KeptAny,
	"C28_KeptList":        C28_KeptList,
	"C28_Kinds":           C28_Kinds,
	"C28_Names":           C28_Names,
	"C28_Nodes":           C28_Nodes,
	"C28_Numbers":         C28_Numbers,
	"C28_Placed":          C28_Placed,
	"C28_Slices":          C28_Slices,
	"C28_Together":        C28_Together,
}

package gobinlog

import "strings"

// Contract of GetStatementCategory (C02): the category of the first keyword,
// whatever its letter case and whatever follows it.

var specKeywords = []string{"begin", "commit", "rollback", "insert", "update", "delete", "create", "alter", "drop", "truncate", "rename", "set"}
var specCategories = []StatementType{StatementBegin, StatementCommit, StatementRollback, StatementInsert, StatementUpdate, StatementDelete,
	StatementCreate, StatementAlter, StatementDrop, StatementTruncate, StatementRename, StatementSet}

// A keyword in any letter case, alone or followed by white space and any text.
func prove_C02_C01_keyword() {
	k := vEnum("keyword", 0, 11)
	word := []byte(specKeywords[k])
	sql := make([]byte, len(word))
	for i := range word {
		sql[i] = vByte("letter")
		vAssume(vOr(sql[i] == word[i], sql[i] == word[i]-'a'+'A'))
	}
	s := string(sql)
	if vBool("more") {
		s += string([]byte{" \t\r\n"[vEnum("space", 0, 3)]}) + vString("rest")
	}
	vCover("keyword")
	vEnsure(GetStatementCategory(s) == specCategories[k], "C02.C01.category")
}

// Any statement: the category is that of the text up to the white space.
func prove_C02_C01_statement() {
	sql := vString("sql")
	word := sql
	if i := strings.IndexAny(sql, " \t\r\n"); i >= 0 {
		word = sql[:i]
	}
	word = strings.ToLower(word)
	want := StatementUnknown
	for i, k := range specKeywords {
		if vEqS(word, k) {
			want = specCategories[i]
		}
	}
	vCover("statement")
	vEnsure(GetStatementCategory(sql) == want, "C02.C01.category-of-the-first-keyword")
}

// Names of statement kinds and column types (C20).
func prove_C20_names() {
	t := vEnum("statement", 0, 13)
	want := "unknown"
	for i, c := range specCategories {
		if c == StatementType(t) {
			want = specKeywords[i]
		}
	}
	vCover("names")
	vEnsure(vEqS(StatementType(t).String(), want), "C20.statement-name")
}
